# one entry per property: (technique, level note). exec()'d by gen_manifest.py
PBT = "property-based testing: "
NOTE = "Randomised exploration with shrinking: a violation reachable by the generator is found with the stated number of cases; absence is not established. "
T["C01"] = (PBT + "generated SQL, tables, options and cluster layouts; differential oracle (single-node DataFusion)",
            NOTE + "Trusts single-node DataFusion as reference; the transport is in-memory gRPC.")
T["C02"] = (PBT + "generated SQL with adaptive task counts; differential oracle (single-node DataFusion) and task-count invariants over recorded plan installations",
            NOTE + "Trusts single-node DataFusion as reference; the transport is in-memory gRPC.")
T["C03"] = (PBT + "generated ORDER BY/LIMIT/OFFSET queries (nested too); differential oracle (single-node DataFusion) on sort keys, counts and sub-multisets",
            NOTE + "Trusts single-node DataFusion as reference; the transport is in-memory gRPC.")
BND = "Randomised exploration with shrinking. Trusts the harness' pass-through probe operators to record what flows at each side; the transport is in-memory gRPC. "
T["C04"] = (PBT + "generated user-placed shuffles with probes on both sides; invariants over the recorded flows (each row in exactly one consumer partition, equal keys together, both sides of a join alike)", BND)
T["C05"] = (PBT + "generated user-placed coalesces (and chains and heads of any kind) with probes on both sides; partition-by-partition reference map from producers to consumers", BND)
T["C06"] = (PBT + "generated user-placed broadcasts with probes on both sides, early and slow consumers; each complete consumer compared with the table", BND)
T["C07"] = (PBT + "generated files of five formats in an in-memory object store under SQL queries, generated file groups and byte ranges below user-placed boundaries, generated hand-made variants; compared with the rows of the files, byte coverage checked in the plan", BND)
T["C20"] = (PBT + "random placements of network boundaries over generated SQL plans through an optimizer rule; differential oracle (single-node DataFusion) and structural comparison of the boundaries left", NOTE)
T["C08"] = (PBT + "generated unions (nested, SQL and hand-built) with generated demands, caps and stage budgets; an executable model of the share (sum, caps, order by demand, each branch exactly once) over what each leaf is executed with, and rows compared with the concatenation", BND)
T["C11"] = (PBT + "fault injection at generated points (operator errors of every kind, panics, refused plans and requests, broken streams and connections, refused sessions) under generated chains of stages and SQL; oracle: the query ends in time, with the rows complete or with the error raised (kind and message)", BND)
T["C13"] = (PBT + "generated config extensions (registered or not, any key and value), passthrough headers and options under generated chains of stages; what every task sees compared with the querying session", BND)
T["C17"] = (PBT + "generated schemas (nested, dictionary, view, union, run-end, metadata) and batches (sliced, shared, empty) through every boundary and codec; round trip compared value by value with the batches sent", BND)
T["C18"] = (PBT + "generated fan-outs, budgets, message sizes and per-partition reading patterns (all, slow, early stop, never, held); delivered rows compared with plain reading, memory held while all consumers pause compared with the budget", BND)
T["C10"] = (PBT + "generated chains of handlers (permutations, repeats, wrong counts, refusals, strangers), resolvers, stage chains and SQL (static and adaptive); every recorded installation, fetch and probe run compared with the decision of an executable model of the handler chain", BND)
T["C16"] = (PBT + "model-based: generated interleavings of plan installations (good, repeated, racing, undecodable, never), fetches of any range before and after, closes, and malformed raw messages against one worker under a paused clock; every answer compared with the partitions of the installed plan", BND)
T["C23"] = (PBT + "generated observations, groupings into tasks and merge orders of every metric type compared with recording in one place and with exact values; generated metric sets sent through a real coordinator channel and compared value by value, and their merge before and after transport", NOTE)
T["C19"] = (PBT + "generated SQL plans with generated user operators and several (careless) codecs, encoded and decoded in another session and compared operator by operator, and by the bytes of a second trip; plans decoded by workers compared with plans sent; mutated messages of every operator decoded (no panic)", NOTE)
T["C21"] = (PBT + "generated rewrite chains per worker (tagging, filtering, rebuilding, failing, panicking) under generated stage chains and SQL (static and adaptive); invariants over the recorded calls and executions, rows compared with the filtered table or single-node DataFusion", NOTE)
T["C15"] = (PBT + "generated histories of queries (stage chains and SQL, faults, late cancellations) each ended at a generated point (complete, failed, limit, dropped before, between or during polls) on one cluster; afterwards sessions, operator streams, memory reservations and background tasks left are counted, and a further query compared with its reference", BND)
T["C22"] = (PBT + "generated concurrent clients with repeated, failing and cancelled queries over one cluster; every complete query compared with its own reference (single-node DataFusion or the table), identities of tasks over the recorded installations", NOTE)
T["C14"] = (PBT + "generated feeds (units, empties, delays, gates, errors, panics, refusals at any point) under generated stage chains, SQL (static, adaptive, isolated unions) and network cuts; every unit emitted is matched with the unit received, by task, partition and position; answers compared with reference rows or required to fail", NOTE)
T["C12"] = (PBT + "generated SQL (static and adaptive) and stage chains with self-counting scans and probes at every stage; metrics of the annotated plan (aggregated, per task, repeated, EXPLAIN ANALYZE) compared with the rows and executions counted inside the operators, per task and partition", NOTE)
T["C09"] = (PBT + "generated SQL plans, demands of leaves and inner operators (also zero), limits and cluster sizes; reference model of the task count of every stage and structural invariants over the static plan and over the stages really run by adaptive queries",
            NOTE + "Task counts are predicted exactly where the final plan shows every demand, bounded otherwise; adaptive plans are held to limits, numbering and shape.")
T["C24"] = (PBT + "generated histories of held, completed, failing and dropped queries with polling of every worker; model-based oracle (recorded plan installations, rows counted by probes at the head of every stage) and invariants over all reports",
            NOTE + "Reports are compared exactly at rest and as invariants at any time; the transport is in-memory gRPC.")
