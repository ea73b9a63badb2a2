#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property against /repo's working tree:
  1. mirrors /repo and builds the harness (incremental),
  2. meanwhile model-checks the specification modules and lets the specification
     generate behaviours,
  3. drives the real code (generated behaviours and seeded histories), recording traces,
  4. lets TLC judge every recorded trace against the specification.
Exit 0: held on everything explored; 1: VIOLATION; anything else: could not decide."""
import bisect
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tracecheck
from registry import CHECKS

WORK = os.path.join(VERIF, ".work")
TARGET = os.environ.get("SNAPSPEC_TARGET", os.path.join(WORK, "hb"))
BIN = os.path.join(TARGET, "debug", "snapspec")


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings --cfg snapspec", CARGO_NET_OFFLINE="true")
    subprocess.run([sys.executable, os.path.join(HERE, "sync_tree.py")], check=True)
    p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def locked_build():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return build()


def model_check(job):
    module, cfg, *opt = job
    opt = opt[0] if opt else {}
    rc, out, secs = tracecheck.tlc(module, cfg, workers=opt.get("workers", 4), heap=opt.get("heap", "3g"),
                                   extra=opt.get("extra", ()), timeout=opt.get("timeout", 780))
    m = None
    for m in tracecheck.ST.finditer(out):
        pass
    import re
    sim = re.search(r"(\d+) states checked", out)
    return dict(module=module, cfg=cfg, ok=rc == 0, secs=round(secs, 1), out=out,
                transitions=int(m.group(1)) if m else 0, states=int(m.group(2)) if m else 0)


def generate(job):
    import re
    module, cfg, *opt = job
    opt = opt[0] if opt else {}
    rc, out, secs = tracecheck.tlc(module, cfg, workers=opt.get("workers", 4), heap="3g", extra=opt.get("extra", ()),
                                   timeout=600)
    beh = []
    for m in re.finditer(r'<<\s*"BEH",\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        beh.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
    # the workers print in any order: make the list deterministic
    beh.sort()
    m = None
    for m in tracecheck.ST.finditer(out):
        pass
    return dict(module=module, cfg=cfg, ok=rc == 0 and beh != [], out=out, secs=round(secs, 1), behaviours=beh,
                transitions=int(m.group(1)) if m else 0, states=int(m.group(2)) if m else 0)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = CHECKS[pid]
    quick = tier == "quick"
    run = os.path.join(WORK, "run", pid)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    replay = os.path.join(WORK, "replay", pid)
    shutil.rmtree(replay, ignore_errors=True)
    os.makedirs(replay)
    mc = list(c.get("mc", [])) + ([] if quick else list(c.get("mc_thorough", [])))
    violations = []   # (kind, detail, path)
    notes = []

    with ThreadPoolExecutor(8) as ex:
        gens = {}
        for n, part in enumerate(c["parts"]):
            g = part.get("gen" if quick else "gen_thorough", part.get("gen", []))
            gens[n] = [ex.submit(generate, j) for j in g]
        mcs = [ex.submit(model_check, j) for j in mc]
        rc, out = locked_build()
        if rc != 0:
            print(out[-6000:])
            print("BUILD FAILED: the harness does not compile against the current tree")
            sys.exit(2)
        genr = {n: [f.result() for f in fs] for n, fs in gens.items()}
        # drive the real code
        drives = []
        for n, part in enumerate(c["parts"]):
            d = os.path.join(run, "p%d" % n)
            os.makedirs(d)
            bad = [g for g in genr[n] if not g["ok"]]
            for g in bad:
                print(g["out"][-3000:])
                print("GENERATION FAILED", g["module"], g["cfg"])
            if bad:
                sys.exit(2)
            cmd = [BIN, part["driver"], "--seed", str(seed), "--tier", tier, "--out", d, *part.get("args", [])]
            beh = [b for g in genr[n] for b in g["behaviours"]]
            if beh:
                with open(os.path.join(d, "in.behaviours"), "w") as f:
                    f.write("\n".join(beh) + "\n")
                cmd += ["--in", os.path.join(d, "in.behaviours")]
            scratch = os.path.join(d, "tmp")
            os.makedirs(scratch)

            def drive(cmd=cmd, d=d, scratch=scratch, part=part):
                t = time.time()
                limit = part.get("limit", 240 if quick else 3000)
                with open(os.path.join(d, "driver.log"), "w") as lf:
                    try:
                        p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, timeout=limit,
                                           env=dict(os.environ, TMPDIR=scratch, SNAPSPEC_LOUD="1", RUST_BACKTRACE="0", RUST_LOG="off"))
                        rc = p.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                shutil.rmtree(scratch, ignore_errors=True)
                return rc, time.time() - t

            drives.append((n, part, d, cmd, len(beh), ex.submit(drive)))
        traces = []
        steps = []
        for n, part, d, cmd, nb, fut in drives:
            rc, secs = fut.result()
            steps.append(dict(driver=" ".join(cmd[1:]), seconds=round(secs, 1), behaviours=nb))
            if rc != 0:
                tail = open(os.path.join(d, "driver.log"), errors="replace").read()[-3000:]
                violations.append(("driver-" + ("hang" if rc == "timeout" else "abort"),
                                   dict(rc=str(rc), cmd=" ".join(cmd), log=tail), os.path.join(d, "driver.log")))
            fs = sorted(f for f in os.listdir(d) if f.endswith(".ndjson"))
            if not fs and rc == 0:
                print("no trace recorded by", cmd)
                sys.exit(2)
            for f in fs:
                p = os.path.join(d, f)
                if os.path.getsize(p) == 0:
                    continue
                mod = part["trace"]
                if isinstance(mod, dict):
                    mod = mod[f.split("_")[0].split(".")[0]]
                traces.append((part, p, rc, ex.submit(tracecheck.check_trace, mod, part.get("cfg", "Trace.cfg"), p,
                                                      part.get("env"), 780 if quick else 7000)))
        results = [(part, p, rc, f.result()) for part, p, rc, f in traces]
        mcr = [f.result() for f in mcs]

    for m in mcr:
        if not m["ok"]:
            p = os.path.join(replay, "model_%s.log" % m["cfg"])
            open(p, "w").write(m["out"])
            # the model does not depend on /repo: a failure here is a fault of the framework
            print(m["out"][-3000:])
            print("MODEL CHECKING FAILED", m["module"], m["cfg"])
            sys.exit(2)

    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    seen_known = {}
    histories = records = 0
    kinds = {}
    samples = []
    ops = {}
    tstates = 0
    seen_vio = set()
    for part, p, rc, r in results:
        lines = open(p).read().splitlines()
        recs = []
        for l in lines:
            try:
                recs.append(json.loads(l))
            except ValueError:
                break
        starts = [i for i, x in enumerate(recs) if x.get("op") in ("reset", "start", "begin", "world", "names")]
        histories += max(1, len(starts))
        records += len(recs)
        tstates += (r["records"] or 0) + 1
        for x in recs:
            k = str(x.get("op")) + (":" + str(x["q"]) if "q" in x and isinstance(x["q"], str) else "")
            ops[k] = ops.get(k, 0) + 1
        if len(samples) < 3 and recs:
            a = starts[len(starts) // 2] if starts else 0
            samples.append(dict(trace=os.path.basename(p), at=a, records=[json.dumps(x)[:400] for x in recs[a:a + 4]]))
        if not r["ok"] and not (rc != 0 and "ndDeserialize" in r["out"]):
            q = os.path.join(replay, os.path.basename(os.path.dirname(p)) + "_" + os.path.basename(p) + ".log")
            open(q, "w").write(r["out"])
            why = [l for l in r["out"].splitlines() if l.startswith(("Error", "The "))][:6]
            violations.append(("spec-cannot-follow", dict(trace=p, why=why), q))
        sel = part.get("kinds")
        for i, k, d in r["complaints"]:
            if sel is not None and k not in sel and not (k.startswith("KNOWN-")):
                continue
            if k.startswith("KNOWN-"):
                e = [x for x in known if x["kind"] == k]
                if e or sel is not None and k not in sel:
                    if e:
                        seen_known[k] = e[0]["what"]
                    continue
            kinds[k] = kinds.get(k, 0) + 1
            h = (p, bisect.bisect_right(starts, i - 1))
            if h in seen_vio:
                continue
            seen_vio.add(h)
            if len(violations) < 20:
                a = starts[h[1] - 1] if h[1] > 0 else 0
                q = os.path.join(replay, "%s_%s_%d.ndjson" % (os.path.basename(os.path.dirname(p)), os.path.basename(p).split(".")[0], i))
                with open(q, "w") as f:
                    f.write("\n".join(lines[a:i]) + "\n")
                with open(q + ".why", "w") as f:
                    f.write(json.dumps(dict(kind=k, record=i, detail=d, seed=seed, tier=tier), indent=1))
                violations.append((k, d, q))
            else:
                violations.append((k, "", ""))

    ev = dict(
        property=pid, tier=tier, seed=seed, level=c.get("level", "model_checking"),
        coverage=dict(
            states=sum(m["states"] for m in mcr) + sum(g["states"] for gs in genr.values() for g in gs) + tstates,
            transitions=sum(m["transitions"] for m in mcr) + sum(g["transitions"] for gs in genr.values() for g in gs) + records,
            traces_validated_against_impl=histories,
            behaviours_generated_by_the_specification=sum(s["behaviours"] for s in steps),
            records_judged=records,
            operations=dict(sorted(ops.items(), key=lambda x: -x[1])[:60]),
            models=[dict(module=m["module"], cfg=m["cfg"], states=m["states"], transitions=m["transitions"], seconds=m["secs"]) for m in mcr],
            drivers=steps,
            known_findings_observed=sorted(seen_known),
            samples=samples or [dict(note="no histories")],
        ),
        assumptions=c.get("assumptions", []),
        wall_s=round(time.time() - t0, 1),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, seen_known[k]))
    print("%s %s: %d histories, %d records, %d model states, %.1fs" % (pid, tier, histories, records, ev["coverage"]["states"], time.time() - t0))
    if violations:
        print("complaints by kind:", json.dumps(kinds))
        for k, d, q in violations[:5]:
            print("  %s %s" % (k, (d if isinstance(d, str) else json.dumps(d))[:700]))
        first = next((q for k, d, q in violations if q), run)
        print("VIOLATION property=%s replay=%s" % (pid, first))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
