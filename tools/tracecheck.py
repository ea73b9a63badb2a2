#!/usr/bin/env python3
"""Runs TLC over recorded traces and collects complaints."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

SPEC = "/verif/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar"


def classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and os.path.join(d, f) != JAR]
    return ":".join(jars)


def tlc(module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=800):
    """Runs TLC; returns (exit code, output, seconds)."""
    import time
    meta = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", classpath(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-lncheck", "final", *extra, "-config", cfg, module + ".tla"]
    if workers == 1:
        cmd[1:2] = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t


C = re.compile(r'^<<"COMPLAINT", (\d+), "([^"]+)", "(.*)">>$')
CS = re.compile(r'<<\s*"COMPLAINT",\s*(\d+),\s*"([^"]+)",\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
E = re.compile(r'<<\s*"TRACE-END",\s*(\d+),\s*(\d+)\s*>>')
ST = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def check_trace(module, cfg, path, env=None, timeout=800):
    v = {"TRACE": os.path.abspath(path)}
    v.update(env or {})
    rc, out, s = tlc(module, cfg, v, timeout=timeout)
    bad = [(int(a), b, c.replace('\\"', '"').replace("\\\\", "\\")) for a, b, c in CS.findall(out)]
    m = E.search(out)
    ok = rc == 0 and m is not None
    return {"path": path, "rc": rc, "complaints": bad, "records": int(m.group(1)) if m else None, "ok": ok, "out": out, "secs": s}


def check_traces(module, cfg, paths, env=None, jobs=8):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda p: check_trace(module, cfg, p, env), paths))


if __name__ == "__main__":
    module, cfg, *paths = sys.argv[1:]
    import json, collections
    shown = collections.Counter()
    for r in check_traces(module, cfg, paths):
        recs = [json.loads(l) for l in open(r["path"])]
        starts = [i for i, x in enumerate(recs) if x.get("op") == "reset"]
        print(r["path"], "rc", r["rc"], "records", r["records"], "complaints", len(r["complaints"]), "%.1fs" % r["secs"])
        if not r["ok"]:
            print("\n".join([l for l in r["out"].splitlines() if not l.startswith(("Pars", "Semant"))][:30]))
        import bisect
        seen, kinds = set(), collections.Counter()
        for i, k, d in r["complaints"]:
            h = bisect.bisect_right(starts, i - 1)
            if h in seen and not k.startswith("KNOWN"):
                continue
            if not k.startswith("KNOWN"):
                seen.add(h)
            kinds[k] += 1
            shown[k] += 1
            if shown[k] <= 2:
                print("  ", i, k, d[:600])
        print("   first complaints per history:", dict(kinds))
