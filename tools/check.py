#!/usr/bin/env python3
"""Decide one property: check the specification with TLC, replay its behaviours into the real
code, validate traces recorded from the real code, write evidence.

usage: check.py ID        (environment: VERIF_SEED, VERIF_TIER=quick|thorough)
       check.py --setup
exit 0 held; 1 violated (VIOLATION line printed); 2 the check itself failed."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
BUILD = os.path.join(ROOT, "build")
BIN = os.path.join(BUILD, "debug", "conform")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, LEVEL  # noqa: E402


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")

    def cargo():
        return subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = cargo()
    if r.returncode != 0:
        # a build cut short earlier can leave unusable intermediate files
        shutil.rmtree(BUILD, ignore_errors=True)
        r = cargo()
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])


def tlc(work, mod, consts, workers=8, invs=None, post=None, timeout=800, env=None, extra=()):
    """Run TLC on spec/<mod>.tla; returns (states generated, distinct, behaviour lines file)."""
    name = mod + "".join("_%s" % re.sub(r"\W+", "", str(v)) for v in consts.values())[:60]
    cfg = os.path.join(work, name + ".cfg")
    base = open(os.path.join(SPEC, mod + ".cfg")).read()
    with open(cfg, "w") as f:
        f.write(base)
        for k, v in consts.items():
            f.write("CONSTANT %s = %s\n" % (k, v))
    log = os.path.join(work, name + ".out")
    meta = os.path.join(work, name + ".meta")
    cmd = ["java", "-Xss512m", "-Xmx10g", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, os.path.join(SPEC, mod + ".tla")]
    with open(log, "w") as f:
        try:
            subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + mod)
    shutil.rmtree(meta, ignore_errors=True)
    tail = []
    ok = False
    gen = dist = 0
    with open(log, errors="replace") as f:
        for l in f:
            if l.startswith('"<<'):
                continue
            tail.append(l)
            if "No error has been found" in l:
                ok = True
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", l)
            if m:
                gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return ok, gen, dist, log, "".join(tail[-60:])


def run_conform(args, timeout=850):
    """Run the harness; a dead process is data."""
    r = subprocess.run(["bash", "-c", "ulimit -v 16000000; exec \"$0\" \"$@\"", BIN, *args],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    return r


def replay(prop, lines, work):
    """Returns (fails [(line, msg)], cases, lines)."""
    r = run_conform(["replay", prop, lines])
    if r.returncode != 0:
        prog = os.path.join(work, "progress")
        if os.path.exists(prog):
            os.remove(prog)
        r2 = run_conform(["replay", prop, lines, prog])
        if r2.returncode == 0:
            r = r2
        else:
            try:
                i = int(open(prog).read().split()[-1])
            except (OSError, IndexError, ValueError):
                raise ToolError("harness died: %s %s" % (r.returncode, r.stderr[-2000:]))
            k = -1
            for l in open(lines, errors="replace"):
                if "<<" in l and not l.startswith('"<<9,'):
                    k += 1
                    if k == i:
                        return [(l.strip(), "process died with status %d: %s" % (r2.returncode, r2.stderr[-300:]))], k, k
            raise ToolError("harness died, line unknown")
    fails, lns = [], {}
    cases = n = 0
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "):
            _, i, m = l.split(" ", 2)
            fails.append((int(i), m))
        elif l.startswith("LINE "):
            _, i, m = l.split(" ", 2)
            lns[int(i)] = m
        elif l.startswith("DONE "):
            m = re.search(r"lines=(\d+) cases=(\d+)", l)
            n, cases = int(m.group(1)), int(m.group(2))
    if "DONE " not in r.stdout:
        raise ToolError("harness gave no summary: " + r.stderr[-2000:])
    for i, m in fails:
        if m.startswith("HARNESS"):
            raise ToolError("line %s: %s" % (lns.get(i, "")[:300], m))
    return [("<<" + lns[i].strip("[]") + ">>", m) for i, m in fails], cases, n


def main():
    if sys.argv[1] == "--setup":
        build()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(OUT, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build()
    ev = {"states": 0, "transitions": 0, "traces": 0, "cases": 0, "samples": [], "parts": []}
    fails, schedules = [], []
    for step in PLAN[prop](tier):
        kind = step["do"]
        ts = time.time()
        if kind == "model":
            ok, gen, dist, log, tail = tlc(work, step["mod"], step.get("consts", {}), extra=step.get("extra", ()))
            if not ok:
                raise ToolError("the specification %s fails its own check:\n%s" % (step["mod"], tail))
            ev["states"] += dist
            ev["transitions"] += gen
            lines = log
            if step.get("schedules"):
                # transport schedules under which the behaviours that follow are replayed
                with open(log, errors="replace") as f:
                    schedules += [l for l in f if l.startswith('"<<9,')]
            elif schedules:
                lines = log[:-4] + ".lines"
                with open(lines, "w") as o, open(log, errors="replace") as f:
                    o.writelines(schedules)
                    o.writelines(l for l in f if l.startswith('"<<'))
            part = {"model": step["mod"], "constants": step.get("consts", {}), "states": dist, "transitions": gen}
            if step.get("schedules"):
                part["schedules"] = len(schedules)
            if step.get("replay", True):
                f, cases, n = replay(prop, lines, work)
                fails += f
                ev["traces"] += n
                ev["cases"] += cases
                part.update({"behaviours_replayed": n, "executions": cases})
                with open(lines, errors="replace") as fh:
                    k = 0
                    for l in fh:
                        if l.startswith('"<<') and not l.startswith('"<<9,'):
                            k += 1
                            if k in (1, 400) and len(l) < 1200:
                                ev["samples"].append(l.strip().strip('"'))
                if not f and os.path.getsize(lines) > 30 << 20:
                    os.remove(lines)
            part["wall_s"] = round(time.time() - ts, 1)
            ev["parts"].append(part)
        elif kind == "trace":
            fs, part = record(prop, step, seed, work)
            fails += fs
            ev["states"] += part["states"]
            ev["transitions"] += part["transitions"]
            ev["traces"] += part["traces"]
            part["wall_s"] = round(time.time() - ts, 1)
            ev["parts"].append(part)
        if fails:
            break
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": LEVEL,
                   "coverage": {"states": ev["states"], "transitions": ev["transitions"],
                                "traces_validated_against_impl": ev["traces"], "evaluations": ev["cases"],
                                "samples": ev["samples"][:6], "parts": ev["parts"]},
                   "assumptions": ["the compact protocol and parquet.thrift as transcribed in spec/Wire.tla and spec/Schema.tla",
                                   "TLC and the harness under /verif/harness"],
                   "wall_s": round(wall, 1), "violations": len(fails)}, f, indent=1)
    if fails:
        rd = os.path.join(OUT, "replays")
        os.makedirs(rd, exist_ok=True)
        for k, (line, msg) in enumerate(fails[:5]):
            path = os.path.join(rd, "%s-%d.txt" % (prop, k + 1))
            with open(path, "w") as f:
                f.write("# %s\n# replay with: %s replay %s %s\n\"%s\"\n" % (msg, BIN, prop, path, line.strip('"')))
            print("%s" % msg[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d model states, %d behaviours, %d executions, %.0f s" % (prop, ev["states"], ev["traces"], ev["cases"], wall))
    return 0


def record(prop, step, seed, work):
    """Record random histories from the real code, then have TLC decide whether the specification allows them."""
    trace = os.path.join(work, step["what"] + ".ndjson")
    seed = seed * 1000 + step.get("round", 0)
    try:
        r = run_conform(["record", step["what"], str(seed), str(step["n"]), trace], timeout=300)
    except subprocess.TimeoutExpired:
        return [("<<0>>", "recording %s with seed %d gave no answer within 300 s" % (step["what"], seed))], \
            {"states": 0, "transitions": 0, "traces": 0}
    if r.returncode != 0:
        return [("<<0>>", "recording %s with seed %d died with status %d: %s" % (step["what"], seed, r.returncode, r.stderr[-300:]))], \
            {"states": 0, "transitions": 0, "traces": 0}
    with open(trace) as f:
        n = sum(1 for _ in f)
    ok, gen, dist, log, tail = tlc(work, step["mod"], step.get("consts", {}), env={"TRACE": trace})
    part = {"model": step["mod"], "recorded": step["what"], "states": dist, "transitions": gen, "traces": n}
    bad = [l for l in open(log, errors="replace") if l.startswith('"REJECTED')]
    if bad:
        fs = []
        for l in bad[:3]:
            m = re.match(r'"REJECTED (\d+) (.*)"', l)
            k = int(m.group(1))
            with open(trace) as f:
                for i, t in enumerate(f, 1):
                    if i == k:
                        fs.append((t.strip(), "recorded trace %d (seed %d) is not a behaviour of the specification: %s" % (k, seed, m.group(2))))
        return fs, part
    if not ok:
        raise ToolError("trace validation %s failed:\n%s" % (step["mod"], tail))
    return [], part


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR: timed out: %s" % e)
        sys.exit(2)
