"""Source of /verif/properties.jsonl (run: python tools/props.py)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

D = "hamilton/driver.py"; G = "hamilton/graph.py"; E = "hamilton/execution/"; FM = "hamilton/function_modifiers/"; L = "hamilton/lifecycle/"; C = "hamilton/caching/"

prop("C01", "Execution returns what the user's functions compute",
 """For every dataflow module and every set of inputs, executing a driver for a list of requested names returns,
 for exactly those names, the value obtained by calling each defining function on the values of the nodes or inputs its
 parameter names refer to; a parameter with a default uses the default when, and only when, nothing supplies it.
 Values are passed through unchanged, whatever they are (None, False, 0, empty containers included).""",
 ["programs", "inputs"], "All acyclic function sets over any number of modules, all declaration orders, all input and config values, all request lists.",
 "Tests run a few dozen fixed modules with one or two input sets; none compares a generated DAG with an independent evaluator, and falsy values or defaulted parameters are barely sampled.",
 [D, G, "hamilton/node.py", E + "graph_functions.py", "hamilton/base.py"],
 [("depth-first evaluation with memo", E + "graph_functions.py:execute_subdag"), ("node call", "hamilton/node.py:Node.__call__")],
 ["Driver.execute / Builder().build().execute return value"])

prop("C02", "Only what is needed runs, once, dependencies first",
 """One execution calls the function of every node that a requested output depends on exactly once, after all the nodes it depends
 on have produced their values, and calls no other function. Nodes reachable only through an overridden node, and nodes not upstream of any
 requested output, are never run.""",
 ["programs", "inputs", "configurations"], "All DAG shapes (diamonds, shared ancestors, chains), request lists, overrides, and both the plain and the task-based execution modes.",
 "Tests check values, not call traces; duplicate or superfluous calls of user code are invisible to value assertions on pure functions.",
 [E + "graph_functions.py", D, E + "state.py", E + "grouping.py", G],
 [("computed memo", E + "graph_functions.py:execute_subdag"), ("upstream restriction", G + ":FunctionGraph.get_upstream_nodes"), ("task DAG", E + "grouping.py:create_task_plan")],
 ["trace of user function calls"])

prop("C03", "Overrides replace a node's value everywhere and nothing else",
 """Executing with overrides gives the results that would be obtained if each overridden node were replaced by a constant with the given
 value (of any value, including None and falsy ones), in every execution mode. Inputs that are needed only to compute overridden nodes need not be supplied, and the override
 does not outlive the call.""",
 ["programs", "inputs", "histories"], "All DAGs, all sets of overridden nodes (inputs, roots, inner, requested), all values, and sequences of calls on one driver.",
 "The tests override one or two nodes of a fixed DAG with a truthy number.",
 [D, E + "graph_functions.py", E + "state.py", G],
 [("overrides seed the memo", E + "graph_functions.py:execute_subdag"), ("overrides in the result cache", E + "state.py:ExecutionState")],
 ["Driver.execute(..., overrides=...)"])

prop("C04", "Invalid requests are rejected before any user code runs",
 """If a required input of the requested part of the dataflow is missing or has the wrong type, a requested name does not exist, or an input clashes with the
 configuration, execution raises an error naming the offending node and no user function has been called. If nothing of the sort is wrong, execution is not rejected; dry-run validation
 accepts and rejects exactly the same requests.""",
 ["programs", "inputs"], "All DAGs with all combinations of present, absent, extra, mistyped and defaulted inputs and all request lists.",
 "Tests sample a few invalid input sets; neither the absence of side effects nor the agreement of the two validators is tested for generated cases.",
 [D, "hamilton/graph_utils.py", "hamilton/htypes.py", "hamilton/node.py"],
 [("input validation", D + ":Driver.validate_inputs"), ("dry run", D + ":Driver.validate_execution"), ("type check", "hamilton/htypes.py / base.py check_input_type")],
 ["exceptions and call trace of execute / validate_execution"])

prop("C05", "Graph construction depends only on the set of functions",
 """The dataflow built from a set of functions is the same whatever the order of definitions in a module, of the modules, and of the module split; its edges
 are exactly the parameter names. Building fails if and only if a name is defined twice (unless module overrides are allowed, when the last module wins), an edge connects a
 producer with an incompatible type, or the same input is used with incompatible types; private (underscore) and imported functions never become nodes.""",
 ["programs", "configurations"], "All function sets, all permutations of definitions and modules, all pairs of annotations from the supported type language.",
 "Tests build fixed modules; type-compatibility is tested on a hand-made table and order independence not at all.",
 [G, "hamilton/graph_utils.py", "hamilton/htypes.py", "hamilton/ad_hoc_utils.py", "hamilton/node.py"],
 [("node creation and dedup", G + ":create_function_graph"), ("dependency wiring", G + ":update_dependencies / add_dependency"), ("type compat", "hamilton/htypes.py:custom_subclass_check"), ("input type merge", "hamilton/graph.py:types_match / set_up")],
 ["list_available_variables, build errors"])

prop("C06", "Config decorators pick the right implementation every time",
 """For any set of alternative implementations of a node guarded by configuration predicates, the node of a built driver is the implementation whose predicate holds
 for that configuration, or is absent when none holds; two holding implementations are an error. The choice depends only on the configuration given to that
 driver, never on which drivers were built from the same modules before.""",
 ["programs", "configurations", "histories"], "All combinations of when / when_not / when_in / when_not_in / arbitrary resolvers, names, config dicts (missing keys, falsy and None values), stacked decorators and sequences of builds.",
 "Tests try a handful of fixed predicate and config pairs and build one driver per module.",
 [FM + "configuration.py", FM + "base.py", G, FM + "delayed.py"],
 [("predicates", FM + "configuration.py:config.when/when_not/when_in/when_not_in"), ("name stripping", FM + "configuration.py:config._config_base_resolve_fn"), ("delayed resolution", FM + "delayed.py:resolve")],
 ["driver.execute and available variables"])

prop("C07", "Parameterized nodes behave like the hand-written functions",
 """Every parameterizing or injecting decorator (by value, by source, mixed, extracted, grouped lists and dicts) yields nodes that compute the same values, with the same
 dependencies and names, as hand-written functions with the literal or the named upstream substituted for each parameter. Parameters not mentioned keep their meaning,
 and each generated node is independent of the others.""",
 ["programs", "inputs"], "All functions, all sets of generated nodes, all mixes of literals (including falsy and mutable ones), sources and groups; with and without defaults.",
 "Tests check individual decorators on single examples; the equivalence to hand-written code over generated combinations is not tested.",
 [FM + "expanders.py", FM + "dependencies.py", FM + "base.py", "hamilton/node.py"],
 [("expansion", FM + "expanders.py:parameterize.expand_node"), ("groups", FM + "dependencies.py:group"), ("inject", FM + "expanders.py:inject"), ("input renaming", "hamilton/node.py:Node.reassign_inputs")],
 ["execute results vs hand-written twin"])

prop("C08", "Extraction decorators expose exactly the declared parts",
 """For a function whose result is split into fields or columns, each declared name is a node whose value is that field or column of the single computed result
 and the undecorated function's own node keeps the whole value. A declared part that is missing from the result, or a result of the wrong container type, is an error
 unless a fill value was declared, in which case the fill is used for exactly the missing parts; the producing function runs once however many parts are used.""",
 ["programs", "inputs"], "All field/column name sets, declared types, results with missing/extra/None parts, fill values (falsy ones included), sync and async functions, names with docs, pandas and polars frames.",
 "Tests use two or three fixed dictionaries and frames.",
 [FM + "expanders.py"],
 [("extract_fields", FM + "expanders.py:extract_fields.transform_node"), ("extract_columns", FM + "expanders.py:extract_columns.expand_node"), ("parameterized extraction", FM + "expanders.py:parameterize_extract_columns")],
 ["execute results"])

prop("C09", "Pipes compute the composition of their active steps",
 """A function decorated with input, output or mutating pipelines computes the composition, in written order, of the steps that are active under the
 configuration with their bound literals and upstream values, and behaves exactly like the undecorated function when no step is active. Only the
 targeted parameter or outputs are affected.""",
 ["programs", "inputs", "configurations"], "All step lists (including empty and fully inactive), bindings of literals/sources, conditions, namespaces, names, targets and stacked pipes.",
 "Tests cover fixed pipelines with two or three steps.",
 [FM + "macros.py", FM + "dependencies.py", FM + "base.py"],
 [("chain_transforms", FM + "macros.py:chain_transforms"), ("pipe_input", FM + "macros.py:pipe_input"), ("pipe_output", FM + "macros.py:pipe_output"), ("mutate", FM + "macros.py:mutate")],
 ["execute results vs plain Python composition"])

prop("C10", "A subdag equals running its functions as a driver of their own",
 """A node defined over an embedded sub-dataflow receives exactly the values that a separate driver over the same functions, with the merged configuration
 and the bound inputs, would return. Nodes inside the sub-dataflow are namespaced: two instances, or an instance and same-named outer nodes, never exchange values, and unbound
 inputs come from the enclosing dataflow.""",
 ["programs", "inputs", "configurations"], "All inner DAGs, input bindings (value/source/unbound), config merges, namespaces, several instances, nested instances and parameterized instances.",
 "Tests cover a few fixed subdags; equivalence with a separate driver is not tested over generated DAGs.",
 [FM + "recursive.py", FM + "base.py", G],
 [("namespacing", FM + "recursive.py:subdag.add_namespace"), ("input bridging", FM + "recursive.py:subdag._create_additional_static_nodes"), ("nodes resolution", FM + "recursive.py:subdag.generate_nodes")],
 ["execute results vs separate driver"])

prop("C11", "Task-based execution agrees with plain execution",
 """For every dataflow without parallel blocks, task-based execution returns the same results and runs the same functions as plain execution, for every grouping strategy and
 every local or remote executor and concurrency limit, and it always terminates.""",
 ["programs", "schedules", "configurations"], "All DAGs, overrides, requests, grouping strategies (one node per task, blocks, inputs/outputs), synchronous / thread / process executors and pool sizes, and completion orders.",
 "Tests run a few fixed DAGs under each executor; completion orders are whatever the machine gives.",
 [E + "state.py", E + "grouping.py", E + "executors.py", D],
 [("task state machine", E + "state.py:ExecutionState"), ("grouping", E + "grouping.py"), ("executor loop", E + "executors.py:run_graph_to_completion")],
 ["execute results, call trace, termination"])

prop("C12", "Parallel blocks map every item and collect in order",
 """A parallel block evaluates its inner nodes once per item of the expanded sequence, with that item and the enclosing values, and its collecting node receives one result per item, in
 item order, for any number of items including zero and whatever order tasks finish in. Nodes of one item never see values of another.""",
 ["programs", "inputs", "schedules"], "All item counts and values (duplicates, falsy, None), block bodies, several blocks in sequence or side by side, executors and completion orders.",
 "Tests use two or three fixed parallel DAGs with ten-ish items and accept the schedule the machine gives.",
 [E + "state.py", E + "grouping.py", E + "executors.py", "hamilton/htypes.py"],
 [("expand/realize tasks", E + "state.py:ExecutionState.realize_parallelizable_task"), ("collect", E + "state.py:ExecutionState.update_task_state / get_eligible..."), ("block discovery", E + "grouping.py:GroupByRepeatableBlocks")],
 ["execute results, call trace"])

prop("C13", "The async driver agrees with the synchronous one",
 """For any mix of coroutine and ordinary functions, the async driver returns the same values as the synchronous driver does for the same functions with coroutines made plain, runs every needed
 function exactly once, and propagates failures, whatever order the awaited operations complete in. Concurrent executions on the same driver do not affect one another.""",
 ["programs", "inputs", "schedules"], "All DAGs, sync/async mixes, await patterns, completion orders, overrides, decorators and concurrent calls.",
 "Tests have a handful of fixed async modules with the event loop's default order.",
 ["hamilton/async_driver.py", "hamilton/node.py", FM + "expanders.py"],
 [("future per node", "hamilton/async_driver.py:AsyncGraphAdapter.do_node_execute"), ("parallel await", "hamilton/async_driver.py:process_value/await_dict_of_tasks")],
 ["AsyncDriver.execute results and call trace"])

prop("C14", "Lifecycle hooks see every event once, properly nested, with truth",
 """Every registered hook is called for each graph, task and node execution exactly once before and once after, properly nested around the work, with the actual node names, arguments, results,
 success flags, errors and run identifier, and after-hooks fire on failure too. Hooks never change results, all adapters of a composite see the same events, and different executions have
 different run identifiers.""",
 ["programs", "inputs", "histories", "fault_sequences"], "All DAGs, adapter combinations, execution modes, failing nodes and sequences of executions.",
 "Tests check call counts of single hooks on one DAG.",
 [L + "base.py", L + "api.py", D, E + "graph_functions.py", E + "executors.py"],
 [("composite dispatch", L + "base.py:LifecycleAdapterSet"), ("node hooks", E + "graph_functions.py:execute_lifecycle_for_node"), ("graph hooks", D + ":Driver.execute"), ("task hooks", E + "executors.py")],
 ["event log of recording adapters"])

prop("C15", "A failing node fails the run with its own error and no residue",
 """When a user function raises, execution raises that same exception; nothing downstream of the failed node runs, and no partial result is returned. The driver remains usable:
 a later execution behaves as if the failed one had not happened.""",
 ["programs", "fault_sequences", "histories"], "All DAGs, failing nodes (several, at every position), exception types, execution modes and follow-up calls.",
 "Tests fail one node in one DAG and do not reuse the driver.",
 [E + "graph_functions.py", E + "executors.py", E + "state.py", D],
 [("error propagation", E + "graph_functions.py:execute_lifecycle_for_node"), ("task failure", E + "executors.py:run_graph_to_completion")],
 ["exceptions, call trace, later results"])

prop("C16", "Graceful error handling isolates exactly the failed branches",
 """With graceful error handling, a node that raises one of the tolerated errors, and every node depending on it, yields the sentinel without being called again, while every node not downstream of
 a failure has its normal value; nodes that opted in to receiving failures are called with the sentinel. Errors that are not tolerated still fail the run.""",
 ["programs", "fault_sequences"], "All DAGs, sets of failing nodes, error class hierarchies, sentinels, opted-in nodes, and parallel blocks.",
 "Tests fail fixed nodes of two small DAGs.",
 [L + "default.py"],
 [("sentinel short circuit", L + "default.py:GracefulErrorAdapter.run_to_execute_node")],
 ["execute results and call trace"])

prop("C17", "A cached run returns what an uncached run would",
 """Over any history of executions sharing a cache - with changed inputs, changed function bodies, changed configuration, other modules, overrides, restarts and cache deletions -
 every execution with caching enabled returns the same values as the same execution without caching, provided the functions are deterministic.""",
 ["histories", "programs", "inputs"], "All sequences of runs over generated DAGs and their edits, all input values, in-memory and on-disk stores, plain and task-based execution.",
 "Tests run two or three fixed executions per scenario; stale-result bugs need specific histories.",
 [C + "adapter.py", C + "fingerprinting.py", C + "cache_key.py", C + "stores/"],
 [("cache key from code and data versions", C + "adapter.py:HamiltonCacheAdapter.get_cache_key"), ("data versions", C + "fingerprinting.py"), ("retrieval", C + "adapter.py:do_node_execute")],
 ["execute results over histories"])

prop("C18", "Caching skips work exactly as configured",
 """Re-running an unchanged dataflow with unchanged inputs calls no function whose result is cached, and a change re-runs only nodes whose code or input values changed. Per-node
 behaviours hold exactly: recompute always runs, disabled nodes always run and leave nothing stored, ignored nodes' values do not trigger
 re-execution downstream, results are kept in the format asked for, and settings on the driver override those on the function, which override the defaults.""",
 ["histories", "programs", "configurations"], "All DAGs, edits, assignments of behaviours by decorator, driver arguments and defaults, and sequences of runs.",
 "Tests check each behaviour on a two-node DAG.",
 [C + "adapter.py", FM + "metadata.py", D],
 [("behaviour resolution", C + "adapter.py:HamiltonCacheAdapter.resolve_behaviors"), ("execute/retrieve decision", C + "adapter.py:do_node_execute")],
 ["call trace over histories"])

prop("C19", "Fingerprints are deterministic and tell different values apart",
 """The fingerprint of a value depends only on the value: equal values get equal fingerprints in every process, whatever the insertion order of mappings and sets, and identity or earlier calls do not matter.
 Values that differ in content - an element, a key, a row, a cell, an order that matters, nesting - get different fingerprints.""",
 ["inputs", "histories"], "All nested values of the supported types and all single-point mutations of them, in several processes with different hash seeds.",
 "Tests pin a dozen hashes of fixed values in one process.",
 [C + "fingerprinting.py"], [("hash_value dispatch", C + "fingerprinting.py:hash_value and registrations")],
 ["hash_value results across processes"])

prop("C20", "Cache stores behave like the mapping they represent",
 """Each metadata store and result store, over any sequence of set, get, exists, delete, clear, run-registration and reopen operations, answers as a plain dictionary would, and in-memory and
 on-disk implementations agree; cache keys built from different node names, code versions or dependency versions differ and decode to what was encoded.""",
 ["histories", "inputs"], "All operation sequences over several nodes, versions, runs and result types; all backends; persistence and reload.",
 "Tests apply short fixed sequences to one backend at a time.",
 [C + "stores/base.py", C + "stores/memory.py", C + "stores/sqlite.py", C + "stores/file.py", C + "cache_key.py"],
 [("sqlite store", C + "stores/sqlite.py"), ("file store", C + "stores/file.py"), ("memory stores", C + "stores/memory.py"), ("key codec", C + "cache_key.py")],
 ["store API results"])

prop("C21", "A crash while caching never corrupts later results",
 """If the process dies at any point of a caching execution, or a write to the cache fails or is cut short, the next execution with the same cache completes and returns the
 values an uncached execution would. What was lost is stored again: a further execution computes nothing anew.""",
 ["crash_points", "fault_sequences", "histories"], "All write and rename points of the result store and all statement points of the metadata store, with truncated, empty and missing result files.",
 "No test interrupts a run.",
 [C + "stores/file.py", C + "stores/sqlite.py", C + "adapter.py"],
 [("write order result-then-metadata", C + "adapter.py:do_node_execute"), ("file writes", C + "stores/file.py:FileResultStore.set")],
 ["results of the run after the crash"])

prop("C22", "Code versions track behaviour, not layout",
 """A node's code version is unchanged by edits that cannot affect behaviour (comments, blank lines, docstring, moving the function, edits of other functions) and is the same in
 every process; it changes whenever the body, signature or a literal of the function changes.""",
 ["programs"], "All generated function sources and all single edits of them, processes and module placements.",
 "Tests hash three fixed functions.",
 ["hamilton/graph_types.py", C + "adapter.py"], [("hash_source_code", "hamilton/graph_types.py:hash_source_code"), ("HamiltonNode.version", "hamilton/graph_types.py:HamiltonNode.version")],
 ["HamiltonNode.version"])

prop("C23", "Lineage queries report the true graph",
 """The queries for what is upstream of, downstream of, between, or immediately next to nodes, for execution order, execution paths, and required inputs, return exactly the sets defined by the reachability relation of the dataflow
 that executions follow.""",
 ["programs", "inputs"], "All DAGs, node sets and node pairs, including unreachable pairs, inputs, config nodes and decorated nodes.",
 "Tests query a few nodes of two or three fixed DAGs.",
 [D, G, "hamilton/graph_types.py"],
 [("directional traversal", G + ":FunctionGraph.directional_dfs_traverse"), ("path between", G + ":FunctionGraph.nodes_between"), ("driver queries", D + ":what_is_upstream_of / what_is_downstream_of / what_is_the_path_between")],
 ["driver query return values"])

prop("C24", "Savers and loaders round-trip and leave the dataflow alone",
 """Data written through a saver and read back through the matching loader is equal to the original; a materializing run saves exactly the values the requested
 nodes compute, returns the additional requested variables as a plain execution would, and leaves the driver as it was. When several loaders or savers fit, the most specific and most recently registered one is used, and none fitting is an error before anything runs.""",
 ["programs", "inputs", "histories"], "All values of the supported formats, targets, combinations and injected loaders, static and dynamic materializers, sequences of calls.",
 "Tests save one fixed value per format.",
 ["hamilton/io/materialization.py", "hamilton/io/default_data_loaders.py", "hamilton/io/data_adapters.py", FM + "adapters.py", "hamilton/registry.py", D, "hamilton/plugins/pandas_extensions.py"],
 [("graph modification", "hamilton/io/materialization.py:modify_graph"), ("saver resolution", FM + "adapters.py:SaveToDecorator / resolve_adapter_class"), ("adapters", "hamilton/io/default_data_loaders.py")],
 ["files written, loaded values, materialize results"])

prop("C25", "Result builders assemble exactly the requested outputs",
 """A result builder receives exactly the requested outputs and returns a container with one entry per requested name, in request order, holding the computed values: dictionaries unchanged, tables with
 values aligned by index and scalars broadcast, arrays by column. Outputs that cannot be combined are an error, never a silent loss.""",
 ["inputs", "programs"], "All mixes of scalars, series, frames, arrays, index types and orders; all result builders for dict, pandas, numpy, polars, arrow.",
 "Tests build a few fixed series.",
 ["hamilton/base.py", "hamilton/plugins/h_polars.py", "hamilton/plugins/h_pyarrow.py", L + "base.py", D],
 [("pandas", "hamilton/base.py:PandasDataFrameResult"), ("strict", "hamilton/base.py:StrictIndexTypePandasDataFrameResult"), ("numpy", "hamilton/base.py:NumpyMatrixResult")],
 ["build_result output"])

prop("C26", "Data quality checks gate exactly the bad outputs",
 """A node with attached data checks passes its value through unchanged when the checks pass or only warn, and fails the run, before anything downstream of it runs, exactly when a failing check has importance 'fail'. Each check's verdict equals the declared
 predicate evaluated on the node's actual value.""",
 ["inputs", "programs"], "All values (scalars and series, NaN, empty, None), all built-in check arguments, several checks, importance levels, and decorator combinations and targets.",
 "Tests evaluate each validator on a couple of values.",
 [FM + "validation.py", "hamilton/data_quality/base.py", "hamilton/data_quality/default_validators.py"],
 [("raw/validator/final nodes", FM + "validation.py:BaseDataValidationDecorator.transform_node"), ("act on results", "hamilton/data_quality/base.py:act_fail/act_warn"), ("validators", "hamilton/data_quality/default_validators.py")],
 ["execute results and errors, validation result nodes"])

prop("C27", "Runtime type checks flag exactly the wrongly typed values",
 """With runtime type checking enabled, an execution fails if and only if some node that runs receives or returns a value that does not conform to its annotation, and the error names that node;
 otherwise results are those of an unchecked execution.""",
 ["inputs", "programs"], "All annotations of the supported language (builtins, generics, optionals, unions, literals, nested) with conforming and nonconforming values.",
 "Tests use one int/str mismatch.",
 [L + "default.py", "hamilton/htypes.py"], [("check_instance", "hamilton/htypes.py:check_instance"), ("adapter", L + "default.py:FunctionInputOutputTypeChecker")],
 ["execute errors"])

prop("C28", "Visualisations draw the graph that runs",
 """Every drawing of a dataflow or of an execution contains exactly one vertex per node it should show and exactly the dependency edges between them, marks requested outputs, inputs and overrides, honours the
 display options, and drawing has no effect on later executions.""",
 ["programs", "configurations"], "All DAGs, request lists, overrides, display options.",
 "Tests compare a few drawings with fixed text.",
 [G, D], [("create_graphviz_graph", G + ":create_graphviz_graph"), ("networkx export", G + ":create_networkx_graph")],
 ["graphviz source"])

prop("C29", "A driver's answer depends only on the call, not on its past",
 """Any sequence of executions, queries, validations, drawings and materialisations on a driver, on drivers built from the same modules or builder, and on copies, returns for each call what a freshly built
 driver would return for that call; inputs, overrides and configuration objects supplied by the caller are not modified.""",
 ["histories", "programs", "configurations"], "All call sequences over several drivers sharing modules, builders and adapters.",
 "Tests use each driver once or twice.",
 [D, G, "hamilton/graph_types.py", FM + "base.py"], [("inputs copied", D + ":Driver.__init__/execute"), ("graph copies for materialize", "hamilton/io/materialization.py:modify_graph"), ("builder", D + ":Builder.copy")],
 ["all driver API results over a history"])

prop("C30", "Tags and metadata reach exactly the nodes they name",
 """Tags, output-specific tags, schemas and doc strings declared by decorators are attached to exactly the nodes they name, whatever other decorators are stacked with them, do not affect values, and querying variables by tag returns exactly the nodes whose tags match the filter.""",
 ["programs", "configurations"], "All tag dictionaries (single and list values), targets, stacking orders with expanding decorators, and all filters.",
 "Tests attach fixed tags to single functions.",
 [FM + "metadata.py", FM + "base.py", D, "hamilton/graph_types.py", FM + "expanders.py"],
 [("tag", FM + "metadata.py:tag"), ("tag_outputs", FM + "metadata.py:tag_outputs"), ("filter", "hamilton/node.py:matches_query")],
 ["list_available_variables"])

prop("C31", "Column transforms equal direct frame manipulation",
 """A frame transformed through a column-wise sub-dataflow equals the original frame with exactly the selected columns computed by the functions and appended (or replaced), other columns and row order untouched; inputs named like columns come from the frame, all others from the enclosing dataflow.""",
 ["programs", "inputs"], "All frames, column functions and selections, with columns from arguments or passed explicitly, for pandas, polars (eager and lazy) and PySpark frames.",
 "Tests use fixed frames and functions.",
 [FM + "recursive.py", "hamilton/plugins/h_pandas.py", "hamilton/plugins/h_polars.py", "hamilton/plugins/h_polars_lazyframe.py", "hamilton/plugins/h_spark.py"],
 [("with_columns_base", FM + "recursive.py:with_columns_base"), ("pandas", "hamilton/plugins/h_pandas.py:with_columns"), ("polars", "hamilton/plugins/h_polars.py:with_columns")],
 ["execute results vs direct computation"])

prop("C32", "The command line reports the truth about a dataflow",
 """For any module files and any two versions of them in git, `hamilton diff` lists exactly the nodes that exist only now, only then, or in both with a changed function (layout, comments and doc strings do not count),
 attributed to the right function; `version` prints the versions the library computes, and `validate` and `build` succeed exactly when the driver accepts the dataflow and the request. A reference that does not exist is an error.""",
 ["programs", "histories", "configurations"], "All pairs of module versions (functions added, dropped, renamed, moved between files, edited, re-formatted; files added), git references, configurations and context files.",
 "Tests diff one fixed pair of modules in memory and only check that the commands exit.",
 ["hamilton/cli/logic.py", "hamilton/cli/commands.py", "hamilton/cli/__main__.py", "hamilton/graph_types.py", "hamilton/ad_hoc_utils.py"],
 [("diff of version maps", "hamilton/cli/logic.py:diff_versions"), ("modules of a git reference", "hamilton/cli/logic.py:load_modules_from_git"), ("context file", "hamilton/cli/logic.py:load_context"), ("commands", "hamilton/cli/commands.py")],
 ["commands.build / version / diff / validate, exit status and JSON of python -m hamilton.cli"])

prop("C33", "Tracking records the run truthfully and never disturbs it",
 """With the tracking adapter attached every execution returns or raises exactly what it would without it, whatever the values.
 The backend receives, as valid JSON, one run start with the inputs and requested outputs, for every node that ran (and each item of a parallel block) one record with its own name, dependencies, times, final status and summary or error, and one run end with the right status, under the dataflow that ran.
 Everything recorded is delivered by the time the tracker is stopped, whatever requests fail.""",
 ["programs", "inputs", "schedules", "fault_sequences"], "All dataflows, values (unserialisable, circular, mutated later), executors, failing nodes and failing requests.",
 "Tests use a mocked client with fixed dataflows and a list of example values.",
 ["ui/sdk/src/hamilton_sdk/adapters.py", "ui/sdk/src/hamilton_sdk/api/clients.py", "ui/sdk/src/hamilton_sdk/tracking/utils.py", "ui/sdk/src/hamilton_sdk/tracking/data_observation.py", "ui/sdk/src/hamilton_sdk/tracking/runs.py"],
 [("adapter", "ui/sdk/src/hamilton_sdk/adapters.py:HamiltonTracker"), ("client", "ui/sdk/src/hamilton_sdk/api/clients.py:BasicSynchronousHamiltonClient"), ("JSON", "ui/sdk/src/hamilton_sdk/tracking/utils.py:make_json_safe"), ("summary", "ui/sdk/src/hamilton_sdk/tracking/runs.py:process_result")],
 ["execute results vs untracked", "the requests received by the backend"])

prop("C34", "Usage telemetry honours opt-out, carries no user data, never disturbs",
 """Once usage telemetry is switched off by any documented switch (environment variable, configuration file, disable_telemetry()) no operation sends anything.
 When it is on, nothing sent contains the user's names, values, paths or messages.
 Every operation ends the same whether telemetry is on, off or cannot be sent.""",
 ["programs", "inputs", "configurations", "fault_sequences"], "All operations of drivers, command line and dataflow hub, failing ones included, under all settings of the switches and failures of the connection.",
 "Tests check single helper functions and switch telemetry off otherwise.",
 ["hamilton/telemetry.py", D, "hamilton/async_driver.py", "hamilton/dataflows/__init__.py", "hamilton/contrib/__init__.py", "hamilton/cli/__main__.py"],
 [("switches", "hamilton/telemetry.py:is_telemetry_enabled"), ("stack traces", "hamilton/telemetry.py:sanitize_error"), ("sending", "hamilton/telemetry.py:send_event_json"), ("capture", D + ":capture_execute_telemetry")],
 ["everything handed to the network", "results and errors with telemetry on, off and failing"])

prop("C35", "The local store of off-the-shelf dataflows is consistent",
 """After any history of operations the local store holds exactly the dataflows whose download succeeded, each complete and as published for that version; a failed or refused download changes nothing and can be repeated.
 Importing gives the code of the version asked for, downloading only if it is absent or overwriting was asked for; listing, searching, inspecting and checking of dependencies describe exactly what is stored.
 Copies are made where asked and replace nothing without permission, and clearing removes the store and nothing else.""",
 ["histories", "fault_sequences", "inputs"], "All histories of pull, import, inspect, list, find, copy and clear over any published versions, with the network failing at any request.",
 "There are no tests of this module.",
 ["hamilton/dataflows/__init__.py"],
 [("download", "hamilton/dataflows/__init__.py:pull_module"), ("import", "hamilton/dataflows/__init__.py:import_module"), ("dependencies", "hamilton/dataflows/__init__.py:are_py_dependencies_satisfied"), ("listing", "hamilton/dataflows/__init__.py:list"), ("search", "hamilton/dataflows/__init__.py:find")],
 ["results of the functions", "files below the store and the copy destination"])

prop("C36", "Static validators gate what is built and materialized, exactly",
 """A driver is built if and only if every static validator accepts every node and the dataflow; otherwise construction fails with a report that names every rejected node and gives every message, and no function has run.
 Each validator is asked once about every node of the dataflow, inputs and materializers included, with its true description. Materializers added later are validated likewise, before anything runs or is written.""",
 ["programs", "inputs"], "All dataflows, sets of node and graph validators of every kind, verdicts and messages, ways of building and materializing.",
 "Tests use validators with fixed verdicts on one fixed dataflow.",
 [D, "hamilton/lifecycle/base.py", "hamilton/lifecycle/api.py", "hamilton/graph_types.py"],
 [("validation", D + ":Driver._perform_graph_validations"), ("calling validators", "hamilton/lifecycle/base.py:call_all_validators_sync"), ("API", "hamilton/lifecycle/api.py:StaticValidator")],
 ["outcome of Builder.build, Driver() and materialize", "what validators are given"])

prop("C37", "The Dask and Ray backends agree with plain execution",
 """Executed through DaskGraphAdapter (delayed or not, computed at the end or later together with the results of other drivers), DaskExecutor, RayGraphAdapter or RayTaskExecutor, every dataflow returns exactly the keys and values that plain execution returns.
 When a function fails, its error is raised and no result is returned.""",
 ["programs", "inputs", "schedules", "configurations"], "All dataflows, inputs, overrides, requests, sets of drivers computed together, schedulers and failing functions.",
 "Tests run one or two fixed dataflows per backend.",
 ["hamilton/plugins/h_dask.py", "hamilton/plugins/h_ray.py", "hamilton/execution/executors.py", "hamilton/execution/graph_functions.py"],
 [("dask adapter", "hamilton/plugins/h_dask.py:DaskGraphAdapter"), ("dask executor", "hamilton/plugins/h_dask.py:DaskExecutor"), ("ray adapter", "hamilton/plugins/h_ray.py:RayGraphAdapter"), ("ray executor", "hamilton/plugins/h_ray.py:RayTaskExecutor")],
 ["execute results vs a reference evaluator"])

prop("C38", "Bundled observers report the run that happened and leave it alone",
 """With any set of PrintLn, ProgressBar, OpenTelemetryTracer, OpenLineageAdapter, SlackNotifier, DDOGTracer and ExperimentTracker attached, an execution returns the same values or raises the same error, calls the same functions and ends in the same working directory and tracing context as without them.
 Each observer reports exactly the nodes that ran, once and below their task and run, with their true outcome, inputs, overrides and requested outputs, the data sets loaded and saved, and the error; nothing of an earlier execution, and nothing of a node that did not run.""",
 ["programs", "inputs", "fault_sequences", "histories"], "All dataflows, inputs, overrides, savers, loaders, parallel blocks, failures, execution modes, sets of observers and sequences of executions.",
 "Tests check construction of most observers and a few messages of fixed dataflows.",
 ["hamilton/lifecycle/default.py", "hamilton/plugins/h_tqdm.py", "hamilton/plugins/h_opentelemetry.py", "hamilton/plugins/h_openlineage.py", "hamilton/plugins/h_slack.py", "hamilton/plugins/h_ddog.py", "hamilton/plugins/h_experiments/hook.py"],
 [("PrintLn", "hamilton/lifecycle/default.py:PrintLn"), ("progress", "hamilton/plugins/h_tqdm.py:ProgressBar"), ("spans", "hamilton/plugins/h_opentelemetry.py:OpenTelemetryTracer"), ("lineage", "hamilton/plugins/h_openlineage.py:OpenLineageAdapter"), ("experiments", "hamilton/plugins/h_experiments/hook.py:ExperimentTracker")],
 ["what the observers emit", "execute and materialize results"])

prop("C39", "Functions run as Spark UDFs compute the same, row by row",
 """A dataflow executed through PySparkUDFGraphAdapter returns a frame with the rows and columns of the given frame, in order, followed by the requested outputs, each holding row by row what the functions compute from the columns, nodes and scalar inputs their parameters name.
 The result depends on that call only, whatever was executed (or failed) on the same driver before.""",
 ["programs", "inputs", "histories"], "All row-wise and pandas functions, frames, scalar inputs, requests and sequences of executions.",
 "Tests run a few fixed functions on one fixed frame.",
 ["hamilton/plugins/h_spark.py"],
 [("adapter", "hamilton/plugins/h_spark.py:PySparkUDFGraphAdapter"), ("udf", "hamilton/plugins/h_spark.py:_lambda_udf"), ("binding", "hamilton/plugins/h_spark.py:_determine_parameters_to_bind")],
 ["columns and rows of the frame returned by execute"])

prop("C40", "Tables are checked against the schemas on record",
 """With the schema validator attached, an execution compares the schema of every table it sees (inputs, overrides and results) with the one on record for that node.
 A table that differs makes the execution fail, or is warned about, as asked for, with a report naming exactly the columns added, removed and changed and how; tables that do not differ are never reported.
 Nodes without a schema on record are put on record or make the execution fail, as asked for; checking never changes a schema on record, and recording replaces it.""",
 ["histories", "programs", "inputs"], "All histories of executions over nodes (in namespaces too) whose tables' columns, types, nullability and metadata change, under all settings of the validator.",
 "Tests diff pairs of two or three schemas and validate one node once.",
 ["hamilton/plugins/h_schema.py"],
 [("validator", "hamilton/plugins/h_schema.py:SchemaValidator"), ("diff", "hamilton/plugins/h_schema.py:diff_schemas"), ("report", "hamilton/plugins/h_schema.py:human_readable_diff")],
 ["outcome of execute", "warnings", "schema files on disk"])

prop("C41", "The older caching adapters return what the functions compute",
 """Over any history of executions sharing one cache location, CacheAdapter and DiskCacheAdapter return what an execution without them returns, serve results known to be stored without calling the function, and call it whenever its code, an argument or the nodes to cache differ; evicting keeps the entries of the current versions.
 CachingGraphAdapter calls a tagged function exactly if its file is missing, it is forced, or a tagged function upstream was called in that execution, and otherwise returns what the file holds, in every supported format.""",
 ["histories", "programs", "inputs", "fault_sequences"], "All dataflows, code edits, inputs, optional inputs, overrides, requests, deleted files, failures, adapters shared by drivers, restarts and evictions.",
 "Tests call the hooks by hand for one node, and run one fixed dataflow twice.",
 ["hamilton/lifecycle/default.py", "hamilton/plugins/h_diskcache.py", "hamilton/experimental/h_cache.py"],
 [("shelve cache", "hamilton/lifecycle/default.py:CacheAdapter"), ("disk cache", "hamilton/plugins/h_diskcache.py:DiskCacheAdapter"), ("eviction", "hamilton/plugins/h_diskcache.py:evict_all_except"), ("tagged files", "hamilton/experimental/h_cache.py:CachingGraphAdapter")],
 ["execute results", "which functions are called", "files of the cache"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
