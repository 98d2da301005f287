#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "A distributed query returns the same rows as the single-node query",
  "For every SQL query, table contents, cluster size and combination of planner options, running the query distributed returns exactly the multiset of rows (with the same schema) that plain single-node DataFusion returns for it. If single-node execution succeeds, distributed planning and execution succeed too.",
  ["programs", "inputs", "configurations"],
  "all queries over scans, filters, projections, joins of every type, aggregates, unions, windows, subqueries, sorts and limits; all data distributions over partitions; all worker counts, task counts and planner options",
  "Existing tests run a fixed list of queries over a few fixed files (most of them unreadable here), with a handful of configurations; the guarantee is over every combination of plan shape, data skew, task count and option.",
  ["src/distributed_planner", "src/execution_plans", "src/coordinator", "src/worker"],
  [("static planning pipeline: collect-join normalisation, broadcast, union isolation, boundary injection, partial reduce, fetch push-down", "src/distributed_planner/distributed_query_planner.rs"),
   ("boundary injection", "src/distributed_planner/inject_network_boundaries.rs"),
   ("broadcast insertion", "src/distributed_planner/insert_broadcast.rs"),
   ("network operators", "src/execution_plans/network_*.rs")],
  ["rows returned by the session context"])

p("C02", "Adaptive task counts never change query results",
  "With adaptive (dynamic) task counts enabled, every query returns the same multiset of rows as single-node DataFusion and as the static distributed plan, whatever statistics the leaves report, whatever data sizes are sampled at run time and whatever bytes-per-partition budget is set. No row observed while sampling is lost, duplicated or reordered out of a required order, and no stage gets zero tasks or more tasks than the cluster or the configured limit allows.",
  ["programs", "inputs", "configurations"],
  "all queries, table contents, leaf statistics (absent, inexact, wrong), byte budgets, cluster sizes and stage limits",
  "Existing AQE tests are fixed snapshots over parquet files that are not present; nothing explores the interplay of sampled sizes, wrong statistics and task-count decisions.",
  ["src/coordinator/prepare_dynamic_plan.rs", "src/execution_plans/sampler.rs", "src/distributed_planner/statistics"],
  [("dynamic plan preparation and statistics gathering", "src/coordinator/prepare_dynamic_plan.rs"),
   ("sampling operator that buffers batches and reports load", "src/execution_plans/sampler.rs"),
   ("cost model", "src/distributed_planner/statistics")],
  ["rows returned by the session context", "task counts sent to the workers"])

p("C03", "ORDER BY, LIMIT and OFFSET mean the same distributed as on one node",
  "A distributed query with ORDER BY returns rows in the requested order (all sort keys, directions and null placements), and with LIMIT/OFFSET returns exactly the rows of that window of the single-node order; a LIMIT or OFFSET without ORDER BY returns exactly the single-node number of rows, all of them rows of the unlimited result without duplicates.",
  ["programs", "inputs", "configurations"],
  "all sort specifications, limits and offsets (including zero and beyond the end), top-level or inside subqueries, joins, unions and aggregates, over sorted and unsorted inputs and every task layout",
  "Snapshots of fetch push-down check plan text for a few shapes; no test relates limited distributed output to the single-node window over arbitrary data placement.",
  ["src/distributed_planner/push_fetch_into_network_coalesce.rs", "src/execution_plans/network_coalesce.rs", "src/distributed_planner/insert_broadcast.rs"],
  [("fetch push-down below the coalescing boundary", "src/distributed_planner/push_fetch_into_network_coalesce.rs"),
   ("order-preserving merge above a network boundary", "src/distributed_planner/inject_network_boundaries.rs")],
  ["row sequence returned by the session context"])

p("C04", "A network shuffle moves every row exactly once and co-locates equal keys",
  "Across a hash shuffle between any number of producer and consumer tasks, each row produced is delivered to exactly one partition of exactly one consumer task, nothing is lost, duplicated or altered, and all rows with equal keys (nulls included) end up in the same partition of the same consumer task.",
  ["inputs", "configurations", "schedules"],
  "all producer task counts, consumer task counts, partition counts, key types and values, batch sizes, empty inputs and consumption orders",
  "Existing tests use a few fixed layouts; the guarantee is arithmetic over every (producers, consumers, partitions) triple and over data that is skewed or empty.",
  ["src/execution_plans/network_shuffle.rs", "src/execution_plans/common.rs", "src/distributed_planner/network_boundary.rs", "src/worker/impl_execute_task.rs"],
  [("partition offset arithmetic and fan-in", "src/execution_plans/network_shuffle.rs"),
   ("scaling the producer's hash partitioning by consumer count", "src/execution_plans/common.rs")],
  ["rows observed per consumer task and partition"])

p("C05", "A network coalesce delivers every producer partition to exactly one consumer",
  "Across a coalescing boundary between any number of producer and consumer tasks, every partition of every producer task is read by exactly one consumer task and partition, with its rows complete and in their produced order, and padding partitions are empty. The number of partitions each consumer exposes is the same in every consumer task and equals what the plan declares.",
  ["inputs", "configurations"],
  "all producer counts, consumer counts (fewer, equal, more, non-divisible), partitions per producer and batch layouts",
  "Unit tests check four layouts; ordinary queries only ever coalesce into one consumer.",
  ["src/execution_plans/network_coalesce.rs"],
  [("contiguous task groups and padding", "src/execution_plans/network_coalesce.rs")],
  ["rows observed per consumer task and partition", "declared partition counts"])

p("C06", "A network broadcast gives every consumer task the complete build side once",
  "Across a broadcast boundary every consumer task receives each row of every producer task exactly once, independently of how many consumers there are, in what order or how fast they read, and whether some of them stop early or never read; the producing work itself runs once per producer partition, not once per consumer.",
  ["inputs", "configurations", "schedules"],
  "all producer counts, consumer counts, partition counts, batch layouts, and interleavings of reads and cancellations by consumers",
  "Unit tests pin a few hand-written interleavings of one queue; the guarantee is over all consumer interleavings and sizes end to end.",
  ["src/execution_plans/broadcast.rs", "src/execution_plans/network_broadcast.rs"],
  [("shared replay queue per real partition, virtual partitions per consumer", "src/execution_plans/broadcast.rs"),
   ("consumer-side partition mapping", "src/execution_plans/network_broadcast.rs")],
  ["rows observed per consumer task", "execution counts of the producer's input partitions"],
  [("broadcast queue", "batches already pulled from the input, replayed to each consumer", "src/execution_plans/broadcast.rs")])

p("C07", "Splitting a scan over tasks reads every row exactly once",
  "When a scan is distributed over tasks, the union of what all tasks read is exactly the table: no file, byte range, row group or partition is skipped or read twice, for any number and size of files, any target partition count, any bytes-per-partition setting and any task count. Every task sees the same number of partitions and the same schema, a declared output order of the scan still holds within each partition, and inconsistent hand-made splits are rejected when they are built rather than producing wrong rows.",
  ["inputs", "configurations"],
  "all file counts, sizes, formats, partition columns, sort declarations, target partitions, byte budgets and cluster sizes; all hand-made leaf variants",
  "Parquet fixtures are missing so nearly no scan test runs; the two unit tests of file-group rebalancing check fixed examples.",
  ["src/events/defaults/file_scan_config.rs", "src/execution_plans/distributed_leaf.rs", "src/events/scale_up_leaf_node.rs"],
  [("default size-based task count and file-group rebalancing", "src/events/defaults/file_scan_config.rs"),
   ("leaf variants with agreement check", "src/execution_plans/distributed_leaf.rs")],
  ["rows returned by full scans", "variants in the distributed plan"])

p("C08", "Isolated union branches run on exactly their share of tasks, each exactly once",
  "When union branches are isolated to tasks, the tasks of the stage are divided among the branches so that each branch runs its complete work exactly once over its share, no branch exceeds its own task limit or is left out, branches of greater demand never get fewer tasks than branches of smaller demand under equal limits (demands count up to the limit of the stage), and the union's rows equal the concatenation of the branches' rows. The division is valid for every number of branches, demand and task budget, also for nested unions.",
  ["inputs", "configurations", "programs"],
  "all branch counts, branch task demands and caps, stage budgets (smaller, equal or larger than the sum), nesting, and plans above and below the union",
  "Unit tests fix a dozen allocations; the end-to-end union tests that run here only cover work unit feeds with 2 or 3 branches.",
  ["src/execution_plans/children_isolator_union.rs", "src/distributed_planner/insert_children_isolator_union.rs", "src/common/recursion.rs", "src/coordinator/query_coordinator.rs"],
  [("largest-remainder allocation with caps", "src/execution_plans/children_isolator_union.rs"),
   ("per-task specialisation", "src/execution_plans/children_isolator_union.rs"),
   ("context-aware tree recursion", "src/common/recursion.rs")],
  ["which (task index, task count) each leaf is executed with", "rows returned"])

p("C09", "Stage task counts respect declared demands and limits; plans are well formed",
  "No stage ever gets more tasks than the configured stage limit or, without one, than the number of workers, nor fewer than one, whatever the declarations; a leaf declaring a maximum never runs in more tasks than that, a desired count is used when nothing limits it, and a plan all of whose stages need one task (or a cluster without workers) stays free of network boundaries. In every distributed plan stage numbers are unique, both sides of every boundary agree on schema, task counts and partition counts, every stage is scaled for its task count, and a boundary joining one task to one task never appears. (When task counts are decided during execution, stages run before it is known what reads them: boundaries joining single tasks may remain there, and declared desired counts are hints.)",
  ["programs", "configurations"],
  "all plans, leaf demands (desired/maximum mixes), worker counts, stage limits, scale factors, and planner options",
  "Planner snapshot tests pin textual plans for a few queries (most need missing files); none states the invariants for arbitrary plans and mixes of demands.",
  ["src/distributed_planner/inject_network_boundaries.rs", "src/distributed_planner/prepare_network_boundaries.rs", "src/events/desired_task_count.rs"],
  [("bottom-up task-count annotation and merging", "src/distributed_planner/inject_network_boundaries.rs"),
   ("limit/merge of annotations", "src/events/desired_task_count.rs"),
   ("boundary finalisation", "src/distributed_planner/prepare_network_boundaries.rs")],
  ["the physical plan tree", "plans and task counts sent to workers"])

p("C10", "Every task runs at the worker it was routed to, and bad routings are rejected",
  "For every stage the plan of task i is sent to, and its partitions are fetched from, exactly the i-th URL the routing decision returned; custom routing decisions take precedence over defaults in registration order, an undecided one falls through, an error or a wrong number of URLs fails the query before any task of that stage runs. Default routing uses only URLs the worker resolver returned and, while there are at least as many workers as tasks, never places two tasks of a stage on the same worker.",
  ["configurations", "programs"],
  "all custom routings (permutations, repeats, wrong lengths, partial deciders), cluster sizes, stage shapes and queries",
  "Tests exercise a few fixed routings with fixed plans; nothing observes the address used for fetching versus the one used for sending across arbitrary stages.",
  ["src/coordinator/query_coordinator.rs", "src/events/route_tasks.rs", "src/events/defaults/routing.rs", "src/coordinator/prepare_static_plan.rs"],
  [("routing handler chain", "src/events/route_tasks.rs"), ("default routings", "src/events/defaults/routing.rs"),
   ("url count check and assignment", "src/coordinator/query_coordinator.rs")],
  ["URL and task key of every request made through the channel resolver"])

p("C11", "Any execution failure fails the query with that error, never a short result",
  "If any task, partition or connection fails at any moment (while sending the plan, decoding, executing, streaming or in the middle of a stream), the query ends with an error, in bounded time, and never returns success with missing rows. The error reaching the client keeps the kind and message of the original failure, across any number of network hops (a message of more than a few KB may arrive cut short; kinds that cannot be rebuilt, like join errors, and what a diagnostic adds are not kept; a panic arrives as an error).",
  ["fault_sequences", "programs", "configurations"],
  "all failure points (operator error or panic at any batch of any partition of any task, plan rejection, channel failure before or during a stream), plan shapes and error kinds",
  "Existing tests inject one error type at a few fixed places; the guarantee is over every fault point in every plan shape and every error variant nested arbitrarily.",
  ["src/protocol/grpc/errors", "src/protocol/grpc/worker_client.rs", "src/protocol/grpc/worker_service.rs", "src/coordinator", "src/worker"],
  [("error encoding across the wire", "src/protocol/grpc/errors"),
   ("fan-out of stream errors to partitions", "src/protocol/grpc/worker_client.rs"),
   ("coordinator-side error collection", "src/coordinator/query_coordinator.rs")],
  ["result of the query at the client"])

p("C12", "Collected metrics account for every task of every stage exactly once",
  "After a distributed query has been consumed to its end, the metrics-annotated plan carries for every operator of every stage the metrics of all tasks that ran it: counters such as output rows equal the number of rows that operator really produced summed over its tasks, the per-task presentation lists each task once and sums to the aggregated one, and repeating the annotation gives the same result. Annotating a plan that is not distributed returns it unchanged, and EXPLAIN ANALYZE neither changes nor loses query work.",
  ["programs", "inputs", "configurations"],
  "all queries, data, cluster sizes, early-terminated streams, both metric presentations, static and adaptive plans",
  "The metrics collection tests need missing files; what runs checks one work-unit-feed plan.",
  ["src/metrics", "src/coordinator/metrics_store.rs", "src/coordinator/distributed.rs", "src/explain_analyze.rs", "src/stage.rs", "src/protocol/grpc/metrics_proto.rs"],
  [("worker-side collection at stream end", "src/metrics/task_metrics_collector.rs"),
   ("metrics store and waiting", "src/coordinator/metrics_store.rs"),
   ("plan rewriting", "src/metrics/task_metrics_rewriter.rs"),
   ("wire format", "src/protocol/grpc/metrics_proto.rs")],
  ["metrics on the rewritten plan", "rows counted inside the leaf"])

p("C13", "Session options and headers reach every worker at every hop unchanged",
  "Every registered configuration extension value and every built-in distributed option set on the querying session, and every passthrough header (repeated values included), is observed with exactly the same value by every worker task of the query, for all stages and nesting depths (headers past the first hop as documented: where the workers' own sessions hand them on); values not registered are not sent and unknown keys are ignored. Headers under the reserved internal prefix are rejected when set, and a value that cannot be transported fails the query or the call instead of arriving altered at a worker that reads it.",
  ["inputs", "configurations", "programs"],
  "all option keys, values (empty, long, special characters), several extensions with overlapping prefixes, header names, repeated headers, and plan depths",
  "Unit tests pass a couple of ASCII values through one hop; nothing covers overlapping prefixes, repeated headers or multi-hop plans with arbitrary values.",
  ["src/config_extension_ext.rs", "src/passthrough_headers.rs", "src/worker/session_builder.rs", "src/coordinator/query_coordinator.rs", "src/worker/worker_connection_pool.rs"],
  [("headers derived from config extensions", "src/config_extension_ext.rs"),
   ("header forwarding on every hop", "src/passthrough_headers.rs")],
  ["session configuration and headers observed inside worker tasks"])

p("C14", "Work unit feeds are delivered once, in order, to the task that owns them",
  "For every scan driven by a work unit feed, each unit the provider emits for a partition is received exactly once, in emission order, by the one remote task and partition it belongs to, the remote stream ends after its last unit once the feeds of its task have ended, and a provider error or a lost coordinator connection fails the query. The provider only runs on the coordinator, each of its partitions is opened at most once, and a slow or unread partition never blocks or mixes with another.",
  ["inputs", "programs", "schedules", "fault_sequences"],
  "all feeds (unit counts, sizes, delays, errors at any point), partition and task counts, several feeds in one plan (unions, joins, nested unions), and early-terminated consumers",
  "The work-unit-feed tests are fixed scripts with small counts; order, exactly-once and isolation are claims over all emission schedules and layouts.",
  ["src/work_unit_feed", "src/coordinator/query_coordinator.rs", "src/worker/impl_coordinator_channel.rs"],
  [("feed registry on the worker", "src/work_unit_feed/remote_work_unit_feed.rs"),
   ("coordinator-side streaming and end-of-feed", "src/coordinator/query_coordinator.rs"),
   ("dispatch of received units", "src/worker/impl_coordinator_channel.rs")],
  ["units received inside each task partition", "provider invocations"])

p("C15", "Workers and the client keep nothing after a query ends, however it ends",
  "Once a query has completed, failed, hit a LIMIT early, or been dropped by its client at any moment, and its client no longer holds its plan or streams, every worker eventually holds no task of it, no operator stream and no session of it is still alive, and all memory reserved for its network transfers is returned, on workers and client alike; the cluster then serves further queries correctly.",
  ["histories", "schedules", "fault_sequences"],
  "all query shapes, endings (normal, error, limit, drop before, during or between polls, metrics on or off) and sequences of such queries on one cluster",
  "The only cleanup test is feature-gated off here and covers completed queries only; cancellation points are a schedule-quantified claim.",
  ["src/worker/impl_coordinator_channel.rs", "src/worker/task_data.rs", "src/worker/worker_service.rs", "src/protocol/grpc/worker_client.rs", "src/protocol/grpc/spawn_select_all.rs", "src/coordinator/distributed.rs"],
  [("task registry invalidation", "src/worker/impl_coordinator_channel.rs"),
   ("partition accounting", "src/worker/task_data.rs"),
   ("stream guards", "src/protocol/grpc/on_drop_stream.rs"),
   ("query guard", "src/coordinator/distributed.rs")],
  ["running-task count of each worker", "memory pool reservations", "live streams counted in the leaf"],
  [("task registry", "plans installed on a worker and not yet finished", "src/worker/worker_service.rs")])

p("C16", "A worker answers requests from the right task plan or rejects them cleanly",
  "For any order and interleaving of plan installations and execution requests, an execution request is answered with exactly the requested partitions of the plan installed for that query, stage and task, also when it arrives before the plan does; a second plan for the same task never replaces the first. Requests that are malformed, out of range, or for a plan that never arrives get an error response in bounded time, never wrong data or a hang, and leave the worker serving other tasks.",
  ["histories", "inputs", "schedules"],
  "all sequences of install/execute requests over several queries, stages, tasks and partition ranges, and all malformed or mutated request messages",
  "Unit tests drive one happy path per component; nothing drives a real worker with adversarial request orders or bytes.",
  ["src/worker/impl_execute_task.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/single_write_multi_read.rs", "src/worker/task_data.rs", "src/protocol/grpc/worker_service.rs"],
  [("write-once cell readers wait on", "src/worker/single_write_multi_read.rs"),
   ("request validation", "src/worker/impl_execute_task.rs"), ("message decoding", "src/protocol/grpc/worker_service.rs")],
  ["responses of a worker to raw requests"])

p("C17", "Record batches cross the network bit-for-bit, for every type and compression",
  "Every record batch that crosses between workers arrives with equal schema and equal values for every Arrow type the engine can produce (nested, dictionary, view, decimal, temporal, null, sliced, empty and zero-column batches included), in its original order within a partition, under every compression setting and however many partitions share a connection.",
  ["inputs", "configurations"],
  "all Arrow schemas and arrays (random nesting, nulls, slices, dictionaries), batch sizes from 0 rows up, compressions and partition interleavings",
  "Tests only move the primitive columns of three fixtures with default settings.",
  ["src/protocol/grpc/worker_service.rs", "src/protocol/grpc/worker_client.rs"],
  [("array garbage collection and IPC encoding", "src/protocol/grpc/worker_service.rs"),
   ("per-partition demultiplexing and decoding", "src/protocol/grpc/worker_client.rs")],
  ["batches received by the consumer of a boundary"])

p("C18", "Buffered transfers stay within budget and never deadlock or starve",
  "For every buffer budget (down to the smallest), batch size and order in which a consumer reads the partitions multiplexed over one connection, all partitions are delivered completely and in order and the transfer finishes as long as the consumer keeps reading each of them; dropping some of the partitions does not stall the others. The memory held for undelivered data of a connection does not grow with the size of the input beyond the budget plus a bounded number of in-flight messages, as long as no consumer of the connection is waiting on an empty partition (then everything before its next row has to be taken in).",
  ["schedules", "configurations", "inputs"],
  "all budgets, batch sizes, partition counts, skews, read orders (round robin, sequential, random, partial) and drops",
  "Tests check one budget with one reader pattern; the claim is over all read schedules.",
  ["src/protocol/grpc/worker_client.rs", "src/protocol/grpc/spawn_select_all.rs"],
  [("budgeted demultiplexing", "src/protocol/grpc/worker_client.rs"), ("bounded per-stream queues", "src/protocol/grpc/spawn_select_all.rs")],
  ["rows per partition", "memory pool of the client"])

p("C19", "Serialising a distributed plan and reading it back preserves its meaning",
  "For every distributed physical plan, encoding it and decoding it in another session gives a plan of the same structure: same operators, schemas, partitionings, stage numbers, query identity, task counts and worker URLs, union task assignment, and broadcast fan-out, and a decoded plan, encoded and decoded once more, encodes to the same bytes again. What a worker decodes is the plan that was sent to it. Operators handled by user-registered codecs, several of them together, round-trip through the same channel, and corrupted or truncated bytes never cause a panic: they give an error unless they still are a valid message.",
  ["programs", "inputs"],
  "all plans the planner can produce plus all directly constructed distributed operators, several user codecs in any registration order, and corrupted or truncated encodings",
  "Unit tests round-trip one hand-built instance per operator and compare display text only.",
  ["src/codec", "src/common/maybe_encoded.rs"],
  [("extension codec", "src/codec/distributed_codec.rs"), ("composition with user codecs", "src/codec/user_codec.rs"),
   ("lazy encode/decode", "src/common/maybe_encoded.rs")],
  ["decoded plan tree", "bytes of the re-encoded plan"])

p("C20", "Hand-placed network boundaries are finalised without changing the result",
  "A plan in which the user placed network boundaries himself is only completed, never re-planned: wherever valid boundaries are placed and whatever task counts they ask for, the query returns the rows of the plan without boundaries, each boundary gets its own stage number, the requested task counts are kept, and boundaries between one task and one task disappear. A shuffle boundary placed over something that is not hash repartitioned is rejected with an error.",
  ["programs", "configurations"],
  "all placements of shuffle, coalesce and broadcast boundaries in a plan, all task counts, and wrongly placed boundaries",
  "Two example plans exist; placements and task counts are unbounded.",
  ["src/distributed_planner/network_boundary.rs", "src/distributed_planner/distributed_query_planner.rs", "src/distributed_planner/prepare_network_boundaries.rs"],
  [("user-placed boundary path", "src/distributed_planner/distributed_query_planner.rs"), ("boundary finalisation", "src/distributed_planner/prepare_network_boundaries.rs")],
  ["plan tree", "rows returned"])

p("C21", "Worker plan rewrites run once per task, in order, only on workers",
  "Every plan rewrite registered on a worker session is applied exactly once to the plan of every task that worker executes, before any partition of it runs, in registration order, each seeing the previous one's output and the session's propagated options; the rewritten plan is the one that executes. A failing rewrite fails the query with its error, and rewrites registered only on the querying session are never run.",
  ["programs", "configurations", "fault_sequences"],
  "all numbers and orders of rewrites (identity, tagging, filtering, failing), plan shapes, task counts and both transports",
  "One fixed test covers two handlers on one plan.",
  ["src/events/worker_plan_rewrite.rs", "src/events/common.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/task_data.rs"],
  [("handler fold", "src/events/worker_plan_rewrite.rs"), ("application at plan installation", "src/worker/impl_coordinator_channel.rs")],
  ["sequence of rewrite invocations", "rows returned"])

p("C22", "Concurrent and repeated queries on one cluster do not affect each other",
  "Any number of queries running concurrently on the same workers, from the same or different sessions with different options, each return exactly what they return alone, even when others fail or are cancelled meanwhile. Running the same query again, sequentially or concurrently, returns the same rows again and never meets state left by an earlier or simultaneous run.",
  ["histories", "schedules", "configurations"],
  "all sets of concurrently started queries, repetition of plans, mixed options, failing and cancelled neighbours, and transports (remote, in-process)",
  "Tests run one query at a time on a private cluster.",
  ["src/coordinator/distributed.rs", "src/worker/worker_service.rs", "src/execution_plans", "src/worker/worker_connection_pool.rs"],
  [("task keys scoped by query id", "src/worker/worker_service.rs"), ("query id and per-execution plan preparation", "src/coordinator/distributed.rs")],
  ["rows returned by each query", "query ids seen by the workers"])

p("C23", "Custom metric types merge independently of order and survive transport",
  "Merging per-task values of the provided metric types gives the same answer in any order and grouping as recording all observations in one place: sums, minima, maxima and averages exactly, percentiles within their advertised relative accuracy; a first-value metric keeps the first one set, whatever the grouping. Sending a metric set over the wire and back preserves every value, name, partition and label of every supported metric, and merging commutes with transport.",
  ["inputs", "histories"],
  "all sequences of observations (zero, tiny, huge), all groupings into tasks, all metric kinds, names and labels",
  "Unit tests merge two or three fixed values per type.",
  ["src/metrics", "src/protocol/grpc/metrics_proto.rs"],
  [("metric aggregation", "src/metrics/latency_metric.rs"), ("wire conversion", "src/protocol/grpc/metrics_proto.rs")],
  ["metric values"])

p("C24", "Cluster introspection reports what is actually running",
  "At any moment of any query history, a worker's progress report lists exactly the tasks installed and not yet finished on it, once each with their identity, their row progress never decreases or exceeds what the task produced, equals it once all rows were produced, and the tasks of finished, failed or cancelled queries disappear. The reported cluster membership equals what the worker resolver returns, and the version a worker reports is the one it was configured with.",
  ["histories", "schedules"],
  "all histories of installing, executing, finishing, failing and cancelling tasks, worker sets and versions",
  "No test queries the introspection service while work is in flight.",
  ["src/protocol/grpc/observability", "src/worker/worker_service.rs"],
  [("progress service", "src/protocol/grpc/observability"), ("task registry", "src/worker/worker_service.rs")],
  ["responses of the introspection service"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
