#!/usr/bin/env python3
"""Mirror /repo's Rust sources into /verif/.work/tree with Cargo manifests that
point at the stand-in crates for the two dependencies missing from this sandbox.

Files are rewritten only when their content differs, so cargo's mtime-based
freshness check rebuilds exactly what changed."""
import os
import re
import sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VP_TREE", os.path.join(VERIF, ".work", "tree"))
DIRS = ["src", "proto", "cli", "config", "tests", "site"]
TOP = ["validators.toml"]
SKIP_DIRS = {"target", "node_modules", ".git"}
SKIP_FILES = {"Cargo.toml", "src/bin/dump_wal.rs"}


def put(rel, data):
    p = os.path.join(OUT, rel)
    try:
        with open(p, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


def manifest(rel, text):
    up = "../" * (rel.count("/") + 2)  # tree -> .work -> verif
    shims = (os.path.join(VERIF, "shims") if "VP_TREE" in os.environ else up + "shims")
    out = []
    for line in text.splitlines():
        m = re.match(r"^informalsystems-malachitebft-([\w-]+)\s*=", line)
        if m:
            line = f'informalsystems-malachitebft-{m[1]} = {{ path = "{shims}/malachite/{m[1]}" }}'
        elif re.match(r"^rocksdb\s*=", line):
            line = f'rocksdb = {{ path = "{shims}/rocksdb" }}'
        elif line.startswith("pre-commit"):
            continue  # its build script installs git hooks
        elif line.startswith("moka = ") and "sync" not in line:
            line = line.replace('"future"', '"future", "sync"')
        out.append(line)
    return "\n".join(out) + "\n"


def main():
    seen = set()
    for d in DIRS:
        base = os.path.join(REPO, d)
        for root, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in SKIP_DIRS]
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                if rel in SKIP_FILES or f == "Cargo.toml":
                    continue
                if d == "site" and not rel.endswith((".json", ".toml")):
                    continue
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                with open(p, "rb") as h:
                    put(rel, h.read())
                seen.add(rel)
    for f in TOP:
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as h:
                put(f, h.read())
            seen.add(f)
    for rel in ("Cargo.toml", "proto/Cargo.toml", "cli/Cargo.toml"):
        with open(os.path.join(REPO, rel)) as h:
            put(rel, manifest(rel, h.read()).encode())
        seen.add(rel)
    # the lock file: repo's, until cargo has pruned it for the stand-ins
    with open(os.path.join(REPO, "Cargo.lock"), "rb") as h:
        lock = h.read()
    stamp = os.path.join(OUT, ".repo-Cargo.lock")
    old = open(stamp, "rb").read() if os.path.exists(stamp) else None
    if old != lock or not os.path.exists(os.path.join(OUT, "Cargo.lock")):
        put("Cargo.lock", lock)
        put(".repo-Cargo.lock", lock)
    seen |= {"Cargo.lock", ".repo-Cargo.lock"}
    # drop files that no longer exist in the repository
    for root, dirs, files in os.walk(OUT):
        dirs[:] = [x for x in dirs if x not in SKIP_DIRS]
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), OUT)
            if rel not in seen:
                os.remove(os.path.join(root, f))


if __name__ == "__main__":
    main()
