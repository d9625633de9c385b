prop("I02", "An Iceberg write is atomic under crashes and storage faults",
  "If the process dies or a storage request fails at any point of a statement on an Iceberg table, later readers see the table either exactly as before or exactly as after the statement, never anything else; a statement that reported success is visible after a crash, a statement that reported a definite failure has no effect, and the table stays readable and writable.",
  ["crash_points", "fault_sequences"], "a crash before or after every storage request of a statement, and a failure (with or without effect) of every storage request, for every statement kind and table configuration",
  "Tests never stop the process in the middle of a commit; the few failure tests inject one failure into one request.",
  [IC+"physical_plan/commit/commit_exec.rs", IC+"physical_plan/", IC+"operations/", IC+"table/"],
  [("metadata file before version hint", IC+"physical_plan/commit/commit_exec.rs"), ("cleanup of the artifacts of a failed attempt", IC+"physical_plan/commit/commit_exec.rs"), ("finding the latest metadata", IC+"table/")],
  ["SELECT in a fresh process after the fault", "a further append after the fault", "reported statement outcome"],
  "crash I02 iceberg", "exhaustive fault enumeration: every object-store request of every statement is the crash or fault point once, real engine on a simulated store", "fault_enumeration")

TH = "Tests use a handful of predicates on tables whose files all match or whose statistics play no role; a wrong bound, cast or rounding shows only for particular values, predicates and file layouts."

prop("D06", "Skipping data never changes what a Delta query or delete sees",
  "For every predicate, a query, an aggregate, a DELETE, a REPLACE WHERE and a MERGE over a Delta table select exactly the rows for which the predicate is true under SQL's three-valued logic, whatever the partitioning, the statistics and the division of the rows into files.",
  ["inputs", "configurations"], "all comparisons, ranges, IN lists, NULL tests, negations, conjunctions, disjunctions and casts over the extreme and neighbouring values of sixteen types, for every pair of values in a file, in eight table layouts",
  TH,
  [DL+"datasource/", DL+"writer/stats.rs", DL+"snapshot/stats.rs", DL+"conversion/scalar.rs", "crates/sail-logical-optimizer/src/simplify_expressions.rs"],
  [("pruning by partition values and file statistics", DL+"datasource/"), ("collection of file statistics", DL+"writer/stats.rs"), ("statistics given to the planner", DL+"snapshot/stats.rs")],
  ["SELECT with the predicate", "aggregates with the predicate", "contents after DELETE, REPLACE WHERE and MERGE with the predicate"],
  "prune D06 delta", "exhaustive enumeration of predicates, values and layouts up to the stated bounds on the real engine, compared with an executable three-valued evaluator")

prop("I04", "Partition transforms and file skipping never change an Iceberg query",
  "For every predicate, a query, an aggregate and a merge-on-read statement over an Iceberg table select exactly the rows for which the predicate is true under SQL's three-valued logic, whatever the partition transforms, the column bounds and the division of the rows into files.",
  ["inputs", "configurations"], "all comparisons, ranges, IN lists, NULL tests, negations, conjunctions, disjunctions and casts over the extreme and neighbouring values of up to fourteen types, for every pair of values in a file, with every partition transform",
  TH,
  [IC+"datasource/pruning.rs", IC+"datasource/provider.rs", IC+"utils/transform.rs", IC+"spec/types/values.rs", IC+"operations/write/"],
  [("pruning by partition summaries, partition values and bounds", IC+"datasource/pruning.rs"), ("partition transforms", IC+"utils/transform.rs"), ("filters taken over by the table provider", IC+"datasource/provider.rs")],
  ["SELECT with the predicate", "aggregates with the predicate"],
  "prune I04 iceberg", "exhaustive enumeration of predicates, values, transforms and layouts up to the stated bounds on the real engine, compared with an executable three-valued evaluator")

prop("F01", "Partition and row group skipping never change a query over files",
  "For every predicate, a query and an aggregate over a table of Parquet files select exactly the rows for which the predicate is true under SQL's three-valued logic, whether the table is partitioned or not and however the rows are divided into files.",
  ["inputs", "configurations"], "all comparisons, ranges, IN lists, NULL tests, negations, conjunctions, disjunctions and casts over the extreme and neighbouring values of sixteen types, for every pair of values in a file, in three layouts",
  TH,
  ["crates/sail-data-source/src/listing/"],
  [("selection of files by partition values", "crates/sail-data-source/src/listing/planner.rs"), ("file statistics", "crates/sail-data-source/src/listing/planner.rs")],
  ["SELECT with the predicate", "aggregates with the predicate"],
  "prune F01 files", "exhaustive enumeration of predicates, values and layouts up to the stated bounds on the real engine, compared with an executable three-valued evaluator")

prop("Q02", "A query's result does not depend on how its execution is divided",
  "The result of a query, or the fact that it fails, is the same for every batch size and number of partitions, and whether its arguments are literals or columns; rows keep the order the query asks for.",
  ["inputs", "configurations"], "every query of a corpus of 3361 queries covering every function and operator documented in the repository, as written and with each literal turned into a column of a table of several rows, under every combination of batch sizes 1, 2, 3, 8192 and partition counts 1, 2, 3 (quick: a covering subset)",
  "Tests evaluate an expression on literals or a few rows in one batch of one partition; kernels that mishandle sliced arrays, several batches, per-row arguments, or partial aggregation states pass.",
  ["crates/sail-function/src/", "crates/sail-plan/src/", "crates/sail-physical-plan/src/", "crates/sail-logical-plan/src/", "crates/sail-session/src/"],
  [("scalar and higher-order kernels", "crates/sail-function/src/scalar/"), ("accumulators with partial states", "crates/sail-function/src/aggregate/"), ("window functions", "crates/sail-function/src/window/"), ("physical planning", "crates/sail-session/src/planner.rs")],
  ["rows of every query in every mode"],
  "equiv Q02", "bounded exhaustive enumeration of queries x literal/column arguments x execution configurations on the real engine, compared with each other")

prop("E02", "A query gives the same result on a cluster as in local mode",
  "Running a query on a cluster of workers, with data exchanged over the network or through files and every operator and expression encoded, shipped and decoded, returns the same rows (in the same order where the query asks for one) or fails in the same way as running it in the process of the server.",
  ["inputs", "configurations"], "every query of a corpus of 3361 queries, as written and with literals turned into columns, on clusters with the network and with the storage shuffle",
  "Tests run few queries in cluster mode, and a missing or lossy encoding of one operator, expression or option, or a wrong division into stages, shows only for queries that use it.",
  [EX+"proto/", EX+"job_graph/", EX+"plan/", EX+"task_runner/", EX+"stream/"],
  [("encoding of plans and functions", EX+"proto/codec.rs"), ("division of a plan into stages", EX+"job_graph/planner.rs"), ("exchange of data", EX+"stream/")],
  ["rows of every query on each cluster"],
  "equiv E02", "bounded exhaustive enumeration of queries x cluster configurations on the real driver and workers, compared with local execution")

prop("E01", "Task failures on a cluster never change a result, only delay or fail it",
  "If any one storage request of a statement running on a cluster fails, once or for good, in the planner, in a task or in the exchange between tasks, the statement returns exactly its rows or reports an error: never fewer, more or other rows, never a write applied in part or twice, and never no answer. A client that goes away at any point does no harm, the cluster runs later statements correctly, and a finished query leaves no exchange data behind.",
  ["fault_sequences", "crash_points"], "the failure of every storage request of sixteen queries (all exchange patterns) and of INSERT, DELETE and MERGE on Delta and Iceberg tables, with the network and the storage shuffle, once (queries and thorough: also for good), and a client that stops after each number of batches",
  "Tests run on healthy storage; a retried task, a region of tasks run twice, or a stream cut short needs a failure at a particular request of a particular task.",
  [EX+"driver/", EX+"stream/", EX+"task_runner/", EX+"worker/", EX+"job_graph/"],
  [("attempts of task regions and clean-up of their output", EX+"driver/job_scheduler/core.rs"), ("job output across attempts", EX+"driver/output.rs"), ("streams between tasks", EX+"stream/"), ("dependencies between task regions", EX+"driver/job_scheduler/topology.rs")],
  ["rows or error of the statement", "contents of the table afterwards", "the same statement afterwards", "files left in the exchange directory"],
  "faults E01", "exhaustive fault enumeration: every storage request of every statement fails once and for good on the real driver and workers over a simulated store", "fault_enumeration")
