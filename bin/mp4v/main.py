import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
import traceback

from . import drive, plan
from .drive import CheckError, ROOT, SPEC, Worker, judge

WORKERS = min(8, os.cpu_count() or 8)


class Model(threading.Thread):
    """An exhaustive run of TLC on a model."""

    def __init__(self, m, scratch, seed):
        super().__init__(daemon=True)
        self.m, self.seed = m, seed
        self.dir = os.path.join(scratch, "mc-" + m["name"])
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "export.ndjson") if m.get("export") else ""
        self.ready = threading.Event()
        self.text, self.error, self.rc = [], None, None
        self.wall = 0

    def run(self):
        t0 = time.time()
        try:
            cfg = os.path.join(self.dir, "mc.cfg")
            with open(cfg, "w") as f:
                f.write("CONSTANTS\n")
                for k, v in self.m["constants"].items():
                    f.write("  %s = %s\n" % (k, v))
                f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
                f.write("INVARIANTS %s\n" % " ".join(self.m["invariants"]))
                if self.m.get("properties"):
                    f.write("PROPERTIES %s\n" % " ".join(self.m["properties"]))
            args = ["-workers", str(self.m.get("workers", 3)), "-metadir", os.path.join(self.dir, "meta"),
                    "-seed", str(self.seed), "-config", cfg, self.m["module"] + ".tla"]
            p = subprocess.Popen(drive.java("6g", self.dir, *args), cwd=SPEC, env=dict(os.environ, MC_OUT=self.out),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            self.p = p
            for line in p.stdout:
                self.text.append(line)
                if "EXPORTED" in line:
                    self.ready.set()
            self.rc = p.wait()
            shutil.rmtree(os.path.join(self.dir, "meta"), ignore_errors=True)
        except Exception as e:          # reported by the main thread
            self.error = e
        self.wall = time.time() - t0
        self.ready.set()

    def exported(self):
        if not self.out:
            return []
        self.ready.wait()
        if not os.path.exists(self.out):
            raise CheckError("model %s exported nothing:\n%s" % (self.m["name"], "".join(self.text)[-3000:]))
        with open(self.out) as f:
            return [json.loads(l) for l in f if l.strip()]

    def result(self):
        self.join()
        t = "".join(self.text)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", t)
        if self.error or self.rc != 0 or not m:
            raise CheckError("model %s: %s\n%s" % (self.m["name"], self.error or self.rc, t[-4000:]))
        return {"model": self.m["name"], "module": self.m["module"], "invariants": self.m["invariants"]
                + self.m.get("properties", []), "transitions": int(m[1]), "states": int(m[2]),
                "wall_s": round(self.wall, 1)}


def work(job):
    """One worker process."""
    prop, module, scratch, seed, tasks, limit, deadline = job
    try:
        w = Worker(prop, module, scratch, limit=limit)
        done = 0
        for t in tasks:
            if time.time() > deadline:
                break
            done += 1
            for name, s in plan.scenario(prop, t, seed):
                w.add(name, s)
            if w.total["violations"] and len(w.total["violations"]) >= 3:
                break
        r = w.finish()
        r["done"] = done
        return r
    except Exception as e:
        return {"error": "%s\n%s" % (e, traceback.format_exc())}


def merge(rs):
    t = {"clauses": {}, "events": 0, "scenarios": 0, "drift": 0, "violations": [], "calls": 0, "ops": {}, "done": 0}
    for r in rs:
        for k in ("clauses", "ops"):
            for c, n in r[k].items():
                t[k][c] = t[k].get(c, 0) + n
        for k in ("events", "scenarios", "drift", "calls", "done"):
            t[k] += r[k]
        t["violations"] += r["violations"]
    return t


def shorten(x, n=400):
    s = json.dumps(x, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


def replay(prop, path):
    r = json.load(open(path))
    scratch = os.path.join(ROOT, ".work", "%s-replay-%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    try:
        drive.build()
        w = Worker(prop, plan.MODULE[prop], scratch)
        w.add(r["scenario"], iter_ops(r["operations"]))
        t = w.finish()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for v in t["violations"]:
        print("event %d: %s" % (v["event"], v["clause"]))
    if t["violations"]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0


def iter_ops(ops):
    for o in ops:
        yield o


def main(argv):
    prop = argv[0]
    if prop not in plan.MODULE:
        print("unknown property " + prop)
        return 2
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work_dir = os.path.join(ROOT, ".work")
    scratch = os.path.join(work_dir, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return run(prop, tier, seed, t0, scratch)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, t0, scratch):
    models = [Model(m, scratch, seed) for m in plan.models(prop, tier)]
    for m in models:
        m.start()
    drive.build()
    exports = {m.m["name"]: m.exported() for m in models}
    expdir = os.path.join(scratch, "exports.json")
    tasks = plan.tasks(prop, tier, seed, exports)
    deadline = time.time() + (180 if tier == "quick" else 3 * 3600)
    jobs = [(prop, plan.MODULE[prop], os.path.join(scratch, "w%d" % k), seed, tasks[k::WORKERS],
             3_000_000, deadline) for k in range(WORKERS)]
    for j in jobs:
        os.makedirs(j[2])
    with multiprocessing.get_context("fork").Pool(WORKERS) as pool:
        rs = pool.map(work, jobs, chunksize=1)
    errors = [r["error"] for r in rs if "error" in r]
    if errors:
        raise CheckError(errors[0])
    t = merge(rs)
    mc = [m.result() for m in models]

    names = sorted({v["clause"] for v in t["violations"]})
    missing = [c for c in plan.REQUIRED[prop] if not t["clauses"].get(c)]
    samples = [shorten(s) for s in plan.samples(prop, tasks, seed)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan.LEVEL[prop],
        "coverage": {
            "states": sum(m["states"] for m in mc),
            "transitions": sum(m["transitions"] for m in mc),
            "traces_validated_against_impl": t["scenarios"],
            "samples": samples,
            "evaluations": t["calls"],
            "distinct_nontrivial": t["scenarios"],
            "rule": "a scenario is a sequence of calls of the library, generated from the seed or exported from the "
                    "model; every call is judged by TLC against the specification; distinct by construction",
            "models": mc,
            "scenarios_planned": len(tasks),
            "scenarios_played": t["done"],
            "trace_events": t["events"],
            "clauses_evaluated": t["clauses"],
            "events_by_kind": t["ops"],
            "steps_differing_from_the_design": t["drift"],
        },
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(t["violations"]),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if t["violations"]:
        seen = set()
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in sorted(t["violations"], key=lambda v: len(json.dumps(v["operations"]))):
            if v["clause"] in seen:
                continue
            seen.add(v["clause"])
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=seed), f)
            print("%s violated at event %d of scenario %s: %s" % (v["clause"], v["event"], v["scenario"],
                                                                  shorten(v["seen"], 600)))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
        return 1
    if missing:
        raise CheckError("never evaluated: %s" % ", ".join(missing))
    print("%s held: %d model states, %d scenarios, %d calls, %s clause evaluations, %.0f s" %
          (prop, ev["coverage"]["states"], t["scenarios"], t["calls"], sum(t["clauses"].values()), time.time() - t0))
    return 0
