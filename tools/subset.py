#!/usr/bin/env python3
"""Lays out /verif/.work/subset: the part of /repo that compiles (the same selection as the repository's own build here),
as real copies whose files change only when their content changes, so that cargo's freshness test is exact."""
import os
import re

REPO, OUT = "/repo", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".work", "subset")
TREES = ["src", "benches"]
TOP = ["Cargo.toml", "Cargo.lock", "build.rs"]
ENGINE = """agg case create_index create_table delete dml group_by join order_by select
smoke update where window""".split()
# Modules that need sqlparser's older API (first three), or need those.
EXCLUDE = [
    "src/sql/execution/expression_parser.rs",
    "src/sql/planner/plan_builder.rs",
    "src/sql/planner/query_planner.rs",
    "src/sql/execution/execution_engine.rs",
    "src/common/db_instance.rs",
    "src/server/server_impl.rs",
    "src/server/connection.rs",
    "src/client",
    "src/cli.rs",
    "src/main.rs",
    "tests/catalog",
    "tests/common/tempdb.rs",
    "tests/concurrency",
    "tests/planner",
    "tests/recovery",
    "tests/sqllogic",
    "tests/execution/common.rs",
    *[f"tests/execution/engine_{x}.rs" for x in ENGINE],
]
MODS = {
    "src/lib.rs": ["cli", "client"],
    "src/common/mod.rs": ["db_instance"],
    "src/server/mod.rs": ["server_impl", "connection"],
    "src/sql/execution/mod.rs": ["expression_parser", "execution_engine"],
    "src/sql/planner/mod.rs": ["plan_builder", "query_planner"],
    "tests/common/mod.rs": ["tempdb"],
    "tests/execution/mod.rs": ["common", *["engine_" + x for x in ENGINE]],
    "tests/integration_tests.rs": [
        "catalog", "concurrency", "planner", "recovery", "sqllogic",
    ],
}
TESTMODS = {
    "src/sql/execution/plans/abstract_plan.rs": ["basic_behaviour", "complex_behaviour"],
}


def excluded(rel):
    return any(rel == e or rel.startswith(e + "/") for e in EXCLUDE)


def generated(rel):
    text = open(f"{REPO}/{rel}", encoding="utf-8").read()
    for m in MODS.get(rel, []):
        text = re.sub(rf"(?m)^(pub(\([a-z]+\))? )?(mod {m};|use {m}::.*;)$", "", text)
    for m in TESTMODS.get(rel, []):
        # line count is kept, so that messages name the right line
        text = re.sub(
            rf"(?ms)^#\[cfg\(test\)\]\nmod {m} \{{\n.*?^\}}\n",
            lambda x: "\n" * x[0].count("\n"), text,
        )
    return text


want = set(TOP)
for tree in TREES:
    for d, dirs, files in os.walk(f"{REPO}/{tree}"):
        dirs[:] = [x for x in dirs if os.path.relpath(f"{d}/{x}", REPO) != "tests/temp"]
        want |= {os.path.relpath(f"{d}/{f}", REPO) for f in files}
want = {w for w in want if not excluded(w) and os.path.exists(f"{REPO}/{w}")}

for tree in TREES:  # what is no longer wanted goes
    for d, dirs, files in os.walk(f"{OUT}/{tree}", topdown=False):
        for f in files:
            if os.path.relpath(f"{d}/{f}", OUT) not in want:
                os.remove(f"{d}/{f}")
        if not os.listdir(d):
            os.rmdir(d)

for rel in sorted(want):
    src, dst = f"{REPO}/{rel}", f"{OUT}/{rel}"
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if rel in MODS or rel in TESTMODS:
        data = generated(rel).encode()
    else:
        with open(src, "rb") as f:
            data = f.read()
    old = None
    if os.path.exists(dst):
        with open(dst, "rb") as f:
            old = f.read()
    if old != data:
        with open(dst, "wb") as f:
            f.write(data)
