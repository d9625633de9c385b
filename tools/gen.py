#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this list."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, check=None, technique=None, level="exploration", note="", state=None, na=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: p["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append((p, check, technique, level, note, na))

DL, IC, EX, SC = "crates/sail-delta-lake/src/", "crates/sail-iceberg/src/", "crates/sail-execution/src/", "crates/sail-spark-connect/src/"

prop("D01", "Concurrent Delta Lake writers are serializable",
  "Whatever the interleaving of the storage operations of concurrent statements on one Delta table, every statement either reports success and takes effect exactly once or reports failure and leaves no trace, and the final table contents equal those of some serial order of the successful statements. Every committed version holds the contents after some of them, every reader that runs meanwhile sees exactly one committed version, at least one of the writers succeeds, and the table stays writable.",
  ["schedules", "histories"], "all interleavings, at object-store granularity, of two concurrent statements (append, delete, merge, overwrite, table property changes, constraints) and of a reader with a writer",
  "Tests run writers one after another, or race real threads a few times; they hit a handful of the interleavings of log listing, conflict check, conditional put and retry.",
  [DL+"transaction/mod.rs", DL+"transaction/conflict_checker.rs", DL+"storage/mod.rs"],
  [("optimistic commit loop with put-if-absent and retry", DL+"transaction/mod.rs"), ("conflict checker against winning commits", DL+"transaction/conflict_checker.rs")],
  ["statement outcome (rows, error)", "SELECT through the same and through a fresh session", "version history and every historic version"],
  "race D01 delta", "stateless model checking of the real engine: every interleaving of object-store operations under a controlled scheduler, sleep-set style reduction of independent reads, serializability oracle")

prop("D02", "A Delta Lake write is atomic under crashes and storage faults",
  "If the process dies or a storage request fails at any point of a statement on a Delta table, later readers see the table either exactly as before or exactly as after the statement, never anything else; a statement that reported success is visible after a crash, and the table stays writable.",
  ["crash_points", "fault_sequences"], "a crash before or after every storage request of a statement, and a failure (with or without effect) of every storage request, for every statement kind and table configuration",
  "Tests never stop the process in the middle of a commit nor inject failures into the object store at each request.",
  [DL+"transaction/mod.rs", DL+"checkpoint/mod.rs", DL+"physical_plan/planner/op_write.rs"],
  [("data files before commit file, put-if-absent commit", DL+"transaction/mod.rs"), ("post-commit checkpoint and cleanup are optional work", DL+"transaction/mod.rs")],
  ["SELECT in a fresh process after the fault", "a further append after the fault", "reported statement outcome"],
  "crash D02 delta", "exhaustive fault enumeration: every object-store request of every statement is the crash or fault point once, real engine on a simulated store", "fault_enumeration")

prop("D03", "Delta Lake snapshots do not depend on checkpoints or other optional files",
  "The contents, schema and history of a Delta table at every retained version are the same whichever of its optional log files (checkpoints, checksums, the last-checkpoint hint, commits already covered by a checkpoint) exist, and whatever order or mixture they were written in.",
  ["histories", "configurations"], "every subset of the optional files of the log of a set of histories, in every checkpoint format the system writes, for the latest and every earlier version",
  "Tests read tables with the one combination of files the writer happened to leave.",
  [DL+"kernel/", DL+"checkpoint/", DL+"delta_log/"],
  [("log segment selection from listing and hint", DL+"delta_log/"), ("replay of checkpoint and commit actions", DL+"kernel/")],
  ["SELECT at the latest and at every earlier version", "aggregates answered from metadata"],
  "logfiles D03", "exhaustive enumeration of the subsets of optional log files of bounded histories, replayed on the real engine against the recorded contents")

prop("D04", "Sequences of statements on a Delta table have exactly SQL semantics",
  "After any sequence of INSERT, DELETE, MERGE, overwrite, replace, append, schema evolution and constraint statements, a Delta table holds exactly the rows the statements define, statements that must be rejected are rejected without effect, and every earlier version still reads as it was.",
  ["histories", "inputs"], "all sequences of up to two to four statements from an alphabet of twenty, over values with NULLs, empty strings and special characters, partitioned and unpartitioned, by name and by path",
  "Tests check chosen statements in chosen orders; interactions of two or more statements with partitioning, NULLs and metadata are sampled.",
  [DL+"physical_plan/", DL+"datasource/", "crates/sail-logical-plan/src/merge.rs", "crates/sail-plan/src/resolver/command/"],
  [("copy-on-write planning of row-level operations", DL+"physical_plan/planner/"), ("merge expansion", "crates/sail-logical-plan/src/merge.rs")],
  ["SELECT with and without filters, aggregates, time travel", "a relocated copy of the table read by a fresh session"],
  "tables D04 delta", "bounded exhaustive enumeration of statement sequences on the real engine, compared with an executable reference model after every statement")

prop("D05", "Delta Lake table features never change what a table contains",
  "With deletion vectors, column mapping, checkpoint policies, in-commit timestamps, metadata-as-data scans or tiny target files enabled, every sequence of statements gives the same contents as the reference semantics, for queries, filters, aggregates and earlier versions.",
  ["histories", "configurations"], "all sequences of two (thorough: three) statements after two inserts, for seven combinations of table features and partitioning",
  "Tests of each feature use a fixed script; the product of features, statements and predicates is not covered.",
  [DL+"physical_plan/planner/", DL+"deletion_vector/", DL+"datasource/expressions.rs", DL+"physical/scan_planner.rs"],
  [("deletion vector writer and reader", DL+"physical_plan/dv_writer_exec.rs"), ("logical to physical column mapping", DL+"datasource/expressions.rs"), ("checkpoint writer", DL+"checkpoint/")],
  ["SELECT with and without filters, aggregates, time travel", "a relocated copy of the table read by a fresh session"],
  "tables D05 delta-features", "bounded exhaustive enumeration of statement sequences per feature combination on the real engine, compared with an executable reference model")

prop("I01", "Concurrent Iceberg writers do not lose or duplicate each other's effects",
  "Whatever the interleaving of the requests that concurrent statements on one Iceberg table make to its metadata, every statement either reports success and takes effect exactly once or reports failure and leaves no trace; the final contents are those of applying the successful statements in some order, where only the source query of an INSERT may have read an earlier committed state. Every reader sees one committed state, at least one writer succeeds, and the table stays readable and writable.",
  ["schedules", "histories"], "all interleavings of the metadata and version-hint requests of two concurrent statements (append, merge-on-read delete and merge, overwrite, property change) and of a reader with a writer, each in its own process",
  "Tests run writers one after another, or race real threads a few times; they hit a handful of the interleavings of listing metadata, writing the next metadata file and retrying.",
  [IC+"physical_plan/commit/commit_exec.rs", IC+"operations/snapshot.rs", IC+"table/"],
  [("commit loop: write metadata, detect competing versions, retry", IC+"physical_plan/commit/commit_exec.rs"), ("requirements checked against the latest metadata", IC+"physical_plan/commit/commit_exec.rs")],
  ["statement outcome", "SELECT in a fresh process", "an append afterwards"],
  "race I01 iceberg", "stateless model checking of the real engine: every interleaving of metadata requests under a controlled scheduler (sleep sets), snapshot-read serializability oracle")

prop("I03", "Sequences of statements on an Iceberg table have exactly SQL semantics",
  "After any sequence of INSERT, MERGE, merge-on-read DELETE, overwrite and property statements, an Iceberg table holds exactly the rows the statements define, whatever the partition values, and statements that must be rejected leave it unchanged.",
  ["histories", "inputs"], "all sequences of three (thorough: four) statements from an alphabet of ten, over values with NULLs, empty strings and special characters, partitioned and unpartitioned",
  "Tests check chosen statements in chosen orders.",
  [IC+"physical_plan/", IC+"operations/", IC+"datasource/"],
  [("snapshot producer and manifest writing", IC+"operations/snapshot.rs"), ("position and equality deletes", IC+"physical_plan/"), ("partition values and data file locations", IC+"operations/write/partition.rs")],
  ["SELECT with and without filters, aggregates"],
  "tables I03 iceberg", "bounded exhaustive enumeration of statement sequences on the real engine, compared with an executable reference model after every statement")

exec(open(os.path.join(os.path.dirname(__file__), "more.py")).read())

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P.sort(key=lambda x: x[0]["id"])
assert len({p[0]["id"] for p in P}) == len(P)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, check, technique, level, note, reason in P:
    if check and os.path.exists("/verif/tools/enabled") and p["id"] in open("/verif/tools/enabled").read().split():
        name = check.split()[0]
        checks.append(dict(property=p["id"], quick_cmd=f"bash /verif/check.sh {check}", thorough_cmd=f"bash /verif/check.sh {check} --thorough",
                           technique=technique, level=level, level_note=note or "explored exhaustively within the bounds stated in DESIGN.md and in the evidence file; nothing is claimed beyond them"))
    else:
        na.append(dict(property=p["id"], reason=reason or "model checking applies, but no check has been built for it yet; nothing is claimed"))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash /verif/setup.sh", hooks=dict(guard="none", enable="no hooks: the checks drive public interfaces only", source_commits=[]), checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
