"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib, sys

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    }
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("P01", "Parsing and re-printing a query never changes what it computes",
     "Parsing a supported SELECT statement and turning the parsed query back into SQL yields a statement that, on every database instance, "
     "returns the same rows (and the same order where the query demands one) as the original text. "
     "Printing the query pretty-printed, in any supported SQL dialect style, or after re-parsing the printed text denotes that same query again. "
     "Constructs that the query model cannot represent are rejected with a parse error instead of being silently dropped.",
     ["inputs", "programs"],
     "All SELECT statements composed from the supported clauses and expressions, and all database contents.",
     "The tests compare a handful of benchmark queries textually against their own re-parsed form; a construct that is consistently misread or dropped compares equal to itself. Only executing both texts on data decides it.",
     ["postbound/parser.py", "postbound/qal/_qal.py", "postbound/qal/_formatter.py"],
     [("parse tree translation", "postbound/parser.py"), ("string rendering of query objects", "postbound/qal/_qal.py"), ("formatter", "postbound/qal/_formatter.py")],
     ["str(parse_query(sql))", "qal.format_quick", "DuckDB result sets of both texts"])

prop("P02", "JSON serialization round-trips preserve every object",
     "Tables, columns, cardinalities, SQL expressions and predicates, queries, join trees, operator assignments, plan parameters and complete query plans that are written to JSON "
     "and read back are equal to the original and carry the same content. "
     "Serialization never fails for an object that the library itself can construct.",
     ["inputs"],
     "All serializable objects, including those with schemas, aliases, intermediates, subplans, parallel workers, annotations and missing values.",
     "No test serializes plans, join trees or operator assignments at all; the loss of a rarely set field only shows on objects that set it.",
     ["postbound/util/jsonize.py", "postbound/_core.py", "postbound/parser.py", "postbound/_hints.py", "postbound/_qep.py"],
     [("JSON encoder", "postbound/util/jsonize.py"), ("readers for tables, columns, expressions, predicates", "postbound/parser.py"),
      ("readers for join trees, operators, parameters", "postbound/_hints.py"), ("plan reader", "postbound/_qep.py")],
     ["to_json", "load_*_json / read_*_json"])

prop("P03", "Query introspection reports exactly what the query text contains",
     "For every query, the reported base tables, columns, table aliases, filter predicates per table, join predicates per table pair, aggregates, subqueries and output columns are exactly those "
     "present in the query text: none is missing, none is invented, and each column is attributed to the table that SQL's scoping rules (including correlated subqueries, CTEs and aliases) assign to it. "
     "Every conjunct of the WHERE clause and of the JOIN conditions is reported exactly once, either as a filter or as a join.",
     ["inputs", "programs"],
     "All SELECT queries over base tables, aliases, CTEs, subqueries (also correlated) and all join syntaxes.",
     "Tests check a few hand-written queries; scoping and classification errors need specific nesting, self-joins or name collisions.",
     ["postbound/qal/_qal.py", "postbound/parser.py"],
     [("query predicates classification", "postbound/qal/_qal.py"), ("binding of columns to tables", "postbound/parser.py")],
     ["SqlQuery.tables/columns/filters/joins/predicates/subqueries/output_columns"])

prop("P04", "Equality, hashing, copying and immutability of query building blocks agree",
     "Two query building blocks (tables, columns, expressions, predicates, clauses, queries) that compare equal have the same hash, and comparison is reflexive, symmetric and distinguishes objects that differ in any component that influences the printed SQL (IN lists count as sets of values, identifiers ignore case). "
     "Pickling or deep-copying yields an equal object, and no public operation on such an object changes an existing one. "
     "Structurally identical texts parse into equal objects.",
     ["inputs", "histories"],
     "All pairs of query objects obtained from parsing, direct construction or transformation.",
     "Hash/equality mismatches depend on rarely used components (flags, negation, null ordering, schemas) that the tests never vary one at a time.",
     ["postbound/_core.py", "postbound/qal/_qal.py"],
     [("cached hash values and __eq__", "postbound/qal/_qal.py"), ("frozen references", "postbound/_core.py")],
     ["==, hash, copy.deepcopy, pickle, set membership"])

prop("P05", "Query transformations do exactly what they advertise, on every query",
     "Transformations that promise an equivalent query (flattening and pulling apart predicates, moving between explicit and implicit join syntax, adding aliases, renaming tables consistently, lifting CTE or table bindings, adding or replacing hints) "
     "leave the query's result unchanged on every database. "
     "Transformations that derive a new query (count-star, star, projection, EXPLAIN wrapping, query fragments, adding or dropping predicates and clauses, merging clauses, table extraction) produce precisely the query one would write by hand: all requested and no other parts change. "
     "The input query is never modified.",
     ["inputs", "programs"],
     "All queries and all valid transformation arguments.",
     "Only few transformations have any test; the visitors have one method per expression and clause type, so an error in one of them needs that type in a query.",
     ["postbound/transform.py", "postbound/qal/_qal.py"],
     [("renaming visitor", "postbound/transform.py"), ("fragment extraction", "postbound/transform.py"), ("clause manipulation", "postbound/transform.py")],
     ["results of original and transformed query on DuckDB", "printed text"])

prop("P06", "The join graph always mirrors the query and the merge history",
     "At any point the join graph reports as joined, free or available exactly what follows from the query's join predicates and the sequence of joins marked so far: joined and free tables partition the query's tables, "
     "available joins are exactly those that connect along a predicate, and join predicates and connected components match those of the query. "
     "Copies are independent of each other: advancing one never affects another.",
     ["histories", "inputs"],
     "All join graphs (disconnected, cyclic, multi-predicate, self-joins) and all orders of marking joins and copying graphs.",
     "There is no test of the join graph; its state is a function of an arbitrary operation history.",
     ["postbound/opt/_joingraph.py"],
     [("mutable join state", "postbound/opt/_joingraph.py"), ("primary/foreign key detection", "postbound/opt/_joingraph.py")],
     ["JoinGraph public predicates after each operation"])

prop("P07", "Dynamic-programming optimizers return a cheapest plan of their search space",
     "For every query, cost model and cardinality estimator, the plan returned by the dynamic programming optimizers is a complete and valid plan (every table scanned exactly once, joins only between disjoint inputs, cross products only when the query's join graph forces or permits them, only admissible operators), "
     "every node carries the requested cardinality and cost estimates and the predicates that apply there, "
     "and no plan within the optimizer's documented search space is cheaper under the same cost model (where sort orders compete, the Postgres-style optimizer's documented pruning may be off by one percent per intermediate). "
     "If no such plan exists the optimizer reports an error. The result does not depend on earlier optimizations with the same optimizer, including failed ones.",
     ["inputs", "configurations", "histories"],
     "All queries (graph shapes incl. chains, stars, cycles, cliques, disconnected), all cost/cardinality assignments and all restrictions of available operators.",
     "Optimality is a statement over the whole plan space; no test runs these optimizers at all.",
     ["postbound/opt/dynprog.py", "postbound/opt/_joingraph.py", "postbound/_qep.py"],
     [("DP tables", "postbound/opt/dynprog.py")],
     ["generate_execution_plan result and estimator calls"])

prop("P08", "Plan enumeration and plan sampling stay inside, and cover, the plan space",
     "Exhaustive enumeration yields every join order (and, where requested, every operator assignment) of the query exactly once and nothing else; random generators only yield members of that same space, and can reach each of them. "
     "Every yielded tree or plan covers all tables of the query exactly once and respects the requested structure (linear or bushy, with or without cross products, allowed operators).",
     ["inputs", "configurations"],
     "All join graphs, generator configurations and random seeds.",
     "Completeness and absence of duplicates are statements over the full space; nothing tests the enumerators.",
     ["postbound/opt/enumeration.py", "postbound/opt/randomized.py", "postbound/opt/_joingraph.py", "postbound/_hints.py"],
     [("exhaustive enumerators", "postbound/opt/enumeration.py"), ("random generators", "postbound/opt/randomized.py")],
     ["yielded join trees and plans"])

prop("P09", "Hinted queries carry exactly the optimizer's decisions and keep their result",
     "For every backend, the hinted query encodes every join order, join direction (on backends whose hints can express it), physical operator, parallelization (more than one worker) and cardinality decision that was requested, with the right tables in the right order, and nothing that was not requested; a decision which the backend cannot express is rejected or reported, never dropped silently. "
     "Apart from the hint and preparatory settings the query is unchanged, so it computes the same result. "
     "On a live system the executed plan follows the hints.",
     ["inputs", "configurations"],
     "All queries and all combinations of join trees, operator assignments, plan parameters and full plans, per hinting backend.",
     "The tests need a live server; errors affect particular combinations (intermediate vs. base joins, parallel plans, memoize/materialize nodes, partial assignments).",
     ["postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py", "postbound/_hints.py"],
     [("Postgres hint generation", "postbound/postgres.py"), ("DuckDB hint generation", "postbound/duckdb.py"), ("MySQL hint generation", "postbound/mysql.py")],
     ["text of the generated hint blocks", "explain output of the hinted query on DuckDB"])

prop("P10", "Join trees and query plans are a faithful algebra",
     "Building, joining, extending, searching, iterating, filtering, converting (join tree to plan, plan to join order, operators and parameters) and updating join trees or query plans never loses, duplicates or reorders scans, joins, operators, cardinalities or subplans beyond what the operation advertises. "
     "Structural predicates (linear, left-deep, right-deep, zig-zag, bushy, completeness, contained tables) agree with the tree's actual shape at every depth. "
     "Decomposing a plan into join order, operators and parameters and recombining them gives back an equivalent plan.",
     ["inputs", "histories"],
     "All tree shapes, intermediate nodes, annotations and subplans.",
     "The shapes on which shortcuts go wrong (nested, right-leaning, auxiliary nodes between joins, subplans) do not occur in the tests.",
     ["postbound/_hints.py", "postbound/_qep.py"],
     [("join trees", "postbound/_hints.py"), ("query plans", "postbound/_qep.py")],
     ["public methods of join trees and query plans"])

prop("P11", "Operator assignments and plan parameters behave like maps over table sets",
     "After any sequence of updates, an operator assignment or plan parameter object answers every lookup (scan, join and intermediate operators, global operator switches, cardinalities, workers, system settings) as a map keyed by table sets would, independent of table order. "
     "Merging lets the advertised side win and keeps everything else; copies, filtered views and merge results are independent of their sources. "
     "Assignments and parameters extracted from a plan contain exactly the decisions of that plan.",
     ["histories", "inputs"],
     "All sequences of updates, merges, copies and lookups.",
     "No test exercises these containers; the effects depend on the order and mix of operations.",
     ["postbound/_hints.py", "postbound/_qep.py"],
     [("operator assignment", "postbound/_hints.py"), ("plan parameterization", "postbound/_hints.py")],
     ["lookup results after each operation"])

prop("P12", "Optimization pipelines run the configured stages and honour every decision",
     "A built pipeline consults exactly the configured stages, each once per query and in the documented order, passes each stage's decisions on to the next, and hands the combined decisions unchanged to the target database's hinting, where later stages override earlier ones only as documented. "
     "A query, stage or database that violates a stage's pre-check is rejected before any optimization; after reconfiguration the checks that apply are those of the current configuration, and a pipeline that has to be built refuses to optimize until it has been built again. "
     "Unconfigured stages leave the decision to the database.",
     ["configurations", "histories", "inputs"],
     "All combinations of configured stages, presets, and reconfiguration histories.",
     "Tests run only fixed pipelines against a live server.",
     ["postbound/_pipelines.py", "postbound/_stages.py", "postbound/validation.py", "postbound/opt/presets.py", "postbound/opt/noopt.py"],
     [("pipeline variants", "postbound/_pipelines.py")],
     ["calls recorded at the stages and at the hinting service"])

prop("P13", "Benchmarks execute and record every query exactly as often as asked",
     "Benchmarking a workload executes each query exactly the requested number of times in the requested order and reports precisely one row per execution, with the matching label, query, repetition counters, result, status and timings; preparation steps run exactly when configured. "
     "Failures and timeouts of single queries, at any point of the run, are recorded or raised as the error policy demands and never lose, duplicate or misattribute the rows of other executions. "
     "Incrementally written output contains the same rows as the returned result, including after an aborted run.",
     ["fault_sequences", "configurations", "inputs"],
     "All workloads, repetition counts, orderings, output formats, error policies and all placements of optimizer/executor failures and timeouts.",
     "Tests only run the happy path; the interesting histories interleave failures with repetitions and incremental output.",
     ["postbound/bench.py", "postbound/workloads.py", "postbound/util/_df.py"],
     [("executor loop and bookkeeping", "postbound/bench.py"), ("query preparation", "postbound/bench.py")],
     ["statements arriving at the database, rows of the result frame and of the output file"])

prop("P14", "The query cache is transparent",
     "With caching enabled, every query returns what the database would have returned when the result was cached, for the very same statement only: different statements, databases or settings never share an entry, uncached execution always reaches the database, and a reloaded cache answers like the one that was stored. "
     "Values and row structure are the same whether or not the answer came from the cache. "
     "Simplification of results (single row, single column, single value) is the same on every path.",
     ["histories", "inputs"],
     "All sequences of cached and uncached statements, data changes, cache resets, close/reopen cycles, and all result shapes and value types.",
     "Requires multi-step histories with data changes and process restarts.",
     ["postbound/db/_db.py", "postbound/duckdb.py", "postbound/postgres.py", "postbound/mysql.py"],
     [("query result cache", "postbound/db/_db.py"), ("result simplification", "postbound/db/_db.py")],
     ["execute_query results and statements arriving at the database"])

prop("P15", "Schema information and statistics match the data in the database",
     "Questions about the schema of a DuckDB database (tables, columns, data types, primary keys, foreign keys in both directions, indexes, nullability) are answered exactly as the database catalog defines them, also for several schemas. A column that is only one part of a composite key is never passed off as a simple primary key. "
     "Emulated statistics (total rows, distinct values, min/max, most common values, and the frequency and histogram estimates derived from them) equal the values computed directly from the table contents. "
     "The answers do not depend on earlier questions.",
     ["inputs", "configurations", "histories"],
     "All schemas and table contents, including empty tables, NULLs, ties and non-numeric domains.",
     "Tests need a live Postgres server with benchmark data; edge-case data is never used.",
     ["postbound/db/_db.py", "postbound/duckdb.py"],
     [("schema access", "postbound/db/_db.py"), ("emulated statistics", "postbound/db/_db.py"), ("DuckDB catalog queries", "postbound/duckdb.py")],
     ["schema and statistics calls against directly executed SQL"])

prop("P16", "Cardinalities and costs follow extended-number arithmetic",
     "Cardinalities support arithmetic, comparison, rounding and conversion consistently with non-negative integers extended by infinity and an unknown value: unknown and infinite operands propagate, results are rounded to integers, comparison is a consistent order in which infinity exceeds every valid cardinality, and equal values hash equally. "
     "Distinguishable states (valid, unknown, infinite) are mutually exclusive and survive serialization and copying.",
     ["inputs"],
     "All operand combinations of all operators, with plain numbers on either side.",
     "Tests sample a few operators with a few operands; mixed, infinite and unknown operands matter.",
     ["postbound/_core.py"],
     [("cardinality arithmetic", "postbound/_core.py")],
     ["operator results"])

prop("P17", "Utility containers and numeric helpers match their mathematical models",
     "Sets, queues, dictionaries, dependency graphs, sequence and power-set helpers, graph traversals, distance functions and bounded numbers of the utility library return, for every input, what their mathematical definition says, without modifying their arguments. "
     "Immutable containers are immutable and hash consistently with equality.",
     ["inputs", "histories"],
     "All inputs incl. empty, single-element, duplicate-containing and one-shot iterables, and all operation histories of the stateful containers.",
     "Tests cover two helper functions.",
     ["postbound/util/collections.py", "postbound/util/dicts.py", "postbound/util/num.py", "postbound/util/nx.py", "postbound/util/stats.py", "postbound/util/misc.py", "postbound/util/_df.py"],
     [("collection helpers", "postbound/util/collections.py"), ("dict helpers", "postbound/util/dicts.py"), ("graph traversals", "postbound/util/nx.py"), ("bounded numbers", "postbound/util/num.py")],
     ["return values"])

prop("P18", "Relational algebra trees mean what the query means",
     "The relational algebra expression built by parse_relalg for a query computes, when evaluated operator by operator, the same rows as the query - for joins, filters with arbitrary AND/OR/NOT nesting and NULLs, EXISTS/IN/NOT IN/scalar subqueries (correlated or not), CTEs, derived tables, "
     "grouping, HAVING, DISTINCT, ORDER BY and set operations. Every operator only uses expressions that its inputs provide, and really has the expressions it claims to provide. "
     "Operators compare and hash by their structure, and report their tables, children, and root correctly. Tree edits (mutate) return a new, well-linked tree (every child knows its parent, shared parts stay shared, the old tree is untouched) in which exactly the requested node changed.",
     ["inputs", "programs", "histories"],
     "All supported queries and all sequences of tree edits.",
     "Tests check a single edit scenario; semantics of the produced trees are not tested.",
     ["postbound/relalg.py"],
     [("query translation", "postbound/relalg.py"), ("tree mutation", "postbound/relalg.py")],
     ["evaluated trees against DuckDB", "parent/child links"])

prop("P19", "Workload operations neither lose nor invent queries or labels",
     "Every workload operation (construction, reading from files, selection, filtering, slicing, ordering, shuffling, sampling, union, intersection, difference, relabelling, pickling) yields exactly the queries and labels that the set/sequence semantics of the operation dictate, in the documented order, and leaves the source workload untouched. "
     "Labels and queries always stay associated with each other.",
     ["histories", "inputs", "fault_sequences"],
     "All workloads (label types, collisions, duplicate queries), all operation sequences, and directories/files with malformed queries.",
     "There is no test for workloads; loss shows only with duplicates, collisions or malformed files.",
     ["postbound/workloads.py"],
     [("workload container", "postbound/workloads.py"), ("workload readers", "postbound/workloads.py")],
     ["labels, entries and order after each operation"])

prop("P20", "Pre-checks accept exactly the queries and systems they describe",
     "Each optimization pre-check accepts a query (or database) if and only if it satisfies the documented restriction, at every nesting depth and for every syntactic form, and states the violated reasons. "
     "Compound checks pass iff all members pass and report every failure of the members that failed, and none else; checks never alter the query.",
     ["inputs", "configurations"],
     "All queries and all combinations of checks.",
     "Tests do not cover the pre-checks; false accepts need specific nesting of predicates, subqueries or set operations.",
     ["postbound/validation.py"],
     [("pre-checks", "postbound/validation.py")],
     ["check results and raised errors"])

prop("P21", "UES upper bounds are never below the true cardinality",
     "For every query within the supported class and every database, the upper bounds that the UES join ordering derives from base-table cardinalities and maximum attribute frequencies are at least the true size of each intermediate result. "
     "The produced join order contains each table exactly once, and every chosen primary-key/foreign-key subquery is a connected part of the query.",
     ["inputs"],
     "All SPJ queries with equi-joins and all database contents.",
     "Soundness of a bound is universally quantified over data; existing tests merely execute benchmark queries on a live server.",
     ["postbound/opt/ues.py", "postbound/opt/_joingraph.py"],
     [("UES bound formulas", "postbound/opt/ues.py"), ("statistics containers", "postbound/opt/ues.py")],
     ["bounds recorded in the join tree against SELECT COUNT(*)"])

prop("P22", "Cardinality generators deliver the numbers they promise",
     "The exact generator returns the true result size of every intermediate, the pre-computed generator returns precisely the stored number for the matching query and table set (and the configured fallback otherwise), the database-backed generator returns the optimizer's own estimate, and distortion multiplies the base estimate by a factor inside the configured range. "
     "Generating plan parameters covers exactly the requested intermediates, each with the generator's own estimate for that intermediate.",
     ["inputs", "configurations"],
     "All queries, intermediates, and generator configurations.",
     "No test covers the generators.",
     ["postbound/opt/_cardinalities.py", "postbound/_stages.py", "postbound/opt/native.py"],
     [("cardinality generators", "postbound/opt/_cardinalities.py"), ("intermediate enumeration", "postbound/_stages.py")],
     ["estimates against SELECT COUNT(*) / explain"])

prop("P23", "Generated queries are valid and obey the generator's constraints",
     "Every query produced by the random query generator or from query templates is valid for the database schema, uses only permitted tables, joins only along foreign keys in a connected way (unless configured otherwise), and contains as many tables, joins and filters as configured; "
     "filter constants stem from the filtered column's domain, and templates are filled completely and in dependency order. "
     "Generation terminates.",
     ["inputs", "configurations"],
     "All schemas, data sets, generator configurations, templates and seeds.",
     "No test covers the generators; violations depend on schema shape and random choices.",
     ["postbound/experiments/querygen.py", "postbound/experiments/ceb.py"],
     [("random query generator", "postbound/experiments/querygen.py"), ("template instantiation", "postbound/experiments/ceb.py")],
     ["generated queries, executed on DuckDB"])

prop("P24", "EXPLAIN output is translated into an equivalent query plan",
     "For every plan that a database system reports, the extracted plan has the same tree: same scans of the same tables and aliases, same joins with the same inner and outer inputs, same physical operators, intermediate nodes, estimated and actual cardinalities, costs, timings, worker counts and subplans. "
     "No plan node that influences the result is dropped or attached elsewhere.",
     ["inputs"],
     "All plan trees expressible in the systems' EXPLAIN formats.",
     "Tests need a live server; plan shapes vary with operators, subplans, parallelism.",
     ["postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py", "postbound/_qep.py"],
     [("Postgres explain parser", "postbound/postgres.py"), ("DuckDB explain parser", "postbound/duckdb.py")],
     ["plan returned for a given EXPLAIN document"])

prop("P25", "Timeouts and concurrent execution never lose, mix up or leak results",
     "A query that runs under a timeout either delivers its own complete result or is reported as timed out, and afterwards the connection works as before. "
     "Executing many queries concurrently delivers every query's own result exactly once, whatever the completion order and whichever of them fail. "
     "Shared counters and the registry of open connections stay consistent under concurrent use.",
     ["schedules", "fault_sequences"],
     "All completion orders, failures and timings of concurrently executed queries.",
     "Single-threaded tests cannot vary the schedule.",
     ["postbound/duckdb.py", "postbound/db/_db.py", "postbound/postgres.py", "postbound/util/num.py"],
     [("timeout execution", "postbound/duckdb.py"), ("parallel executor", "postbound/postgres.py"), ("database pool", "postbound/db/_db.py"), ("atomic counter", "postbound/util/num.py")],
     ["recorded call/return history of the executing clients"])

prop("P26", "Training data keeps every sample intact through storage and merging",
     "Training samples that are stored, loaded, merged, filtered or projected to a feature specification keep their values attached to the right sample and feature; nothing is lost, duplicated or swapped, and only data that satisfies the requested specification is returned.",
     ["histories", "inputs"],
     "All sample sets, feature specifications and sequences of repository operations.",
     "No test covers the training data repository.",
     ["postbound/train/_train.py"],
     [("training data container", "postbound/train/_train.py"), ("repository", "postbound/train/_train.py")],
     ["samples returned by the repository"])

prop("P27", "TONIC recommends the join operators it has learned for exactly this join path",
     "Cost information from query plans is stored for the join paths (in filter-aware mode: with their filters, whatever the aliases and the order of the filters) that the plans executed. "
     "Recommendations for a join order contain for every join, including the final one, the cheapest operator among the known costs of exactly this path, and no others; operators with unknown costs are reported for exactly those joins. "
     "Storing and loading a model changes none of this, and the exploration executes different, supported and allowed operator combinations of the given join order, at most as many as requested.",
     ["histories", "inputs"],
     "All histories of learning, recommending, exploring and reloading over join trees of any shape.",
     "No test covers TONIC, mistakes only show after several learning steps.",
     ["postbound/opt/tonic.py"],
     [("synopsis nodes", "postbound/opt/tonic.py"), ("operator selection", "postbound/opt/tonic.py"), ("model loading", "postbound/opt/tonic.py")],
     ["recommended operators and stored costs"])

prop("P28", "Plan analysis reports the true differences, depths, bounds and cardinalities",
     "Comparing two query plans reports exactly the nodes whose operators, join directions, estimates, costs, actual cardinalities or tables differ, and nothing for equal plans. "
     "Join depths, the bottom-up similarity and the Levenshtein distance of join trees follow their definitions; similarities do not depend on the order of the arguments. The bound on the number of plans is never below the number of possible plans. "
     "The cardinality of a star query equals the number of rows that the query produces, the true cost of a plan uses its actual cardinalities, and comparing texts line by line loses no line.",
     ["inputs"],
     "All pairs of plans and join trees, all star queries and database contents.",
     "No test covers the analysis functions.",
     ["postbound/opt/_analysis.py"],
     [("plan comparison", "postbound/opt/_analysis.py"), ("join tree similarities", "postbound/opt/_analysis.py"), ("star cardinalities", "postbound/opt/_analysis.py")],
     ["reported changes, scores and cardinalities"])

prop("P29", "The workload shifter removes exactly the requested rows",
     "Removing a number or share of rows of a table deletes exactly this many rows: the smallest or largest ones in the requested order and NULL placement (ties by primary key), random ones, or exactly the marked ones. "
     "Other tables and rows stay as they are, whatever the names of tables and columns are. Marker tables contain a random sample of the requested share of the rows and survive export and import unchanged. "
     "Invalid requests change nothing, and all connections are closed.",
     ["histories", "inputs"],
     "All table contents, names and sequences of removals.",
     "Tests need a live server; lost rows depend on names, ties and NULL values.",
     ["postbound/postgres.py"],
     [("WorkloadShifter", "postbound/postgres.py")],
     ["table contents before and after a removal"])

prop("P30", "Server catalogs, native statistics and settings are read as stored",
     "For Postgres and MySQL, every schema question (keys, indexes, foreign keys, types, nullability) about a column of any schema gets exactly what the server's catalog contains for this very table: compound keys and indexes do not count for single columns, and equal table names of other schemas or databases do not interfere. "
     "Native statistics (row counts, distinct values, most common values, histograms) match the server's stored statistics. Statistics updates, prewarming and cooling of tables address the requested tables, columns and indexes. "
     "Settings reach the server with the given values, configurations behave like immutable collections of settings, and connection parameters from files, arguments or the environment arrive unchanged.",
     ["inputs", "histories"],
     "All catalogs, names, statistics, settings and connection parameters.",
     "Tests need a live server with one fixed schema.",
     ["postbound/postgres.py", "postbound/mysql.py"],
     [("PostgresSchemaInterface", "postbound/postgres.py"), ("PostgresStatisticsInterface", "postbound/postgres.py"), ("PostgresConfiguration", "postbound/postgres.py"), ("MysqlSchemaInterface", "postbound/mysql.py")],
     ["answers about catalogs and statistics, statements sent to the server"])

prop("P31", "Native stages return what the database says about exactly this plan",
     "The native cost model returns the cost that the database's optimizer assigns to exactly the requested (sub-)plan - including index scans that the database only uses for other projections, sorts, and materialized or memoized inputs - "
     "by asking for exactly the query fragment of the plan's tables. If the database fails or ignores the plan, the cost is infinite or an error is raised, as requested. "
     "The native join ordering, operator selection, parameterization and cardinality stages ask once, pass on exactly the given join order and operators, and return exactly the decisions of the resulting plan.",
     ["inputs"],
     "All queries, sub-plans and answers or failures of the database.",
     "Tests need a live server; wrong costs are silent.",
     ["postbound/opt/native.py"],
     [("NativeCostModel", "postbound/opt/native.py"), ("NativePlanParameterization", "postbound/opt/native.py")],
     ["costs and plan decisions of native stages, queries sent to the optimizer"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    keep = None
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P))
