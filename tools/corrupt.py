#!/usr/bin/env python3
"""How much of a recorded behaviour the clauses determine: records executions, changes one thing of one event at a
time, and has TLC judge the changed traces. What isn't rejected is listed.

usage: corrupt.py PROPERTY [FOCUS [SCENARIOS [SEED]]]     (FOCUS: a property, or all)"""

import copy
import json
import os
import random
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin"))
from mp4v import drive, plan  # noqa: E402


def paths(x, at=()):
    """All places of numbers, texts and lists."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, at + (k,))
    elif isinstance(x, list):
        yield at
        for i, v in enumerate(x):
            yield from paths(v, at + (i,))
    else:
        yield at


def changed(rng, e, only):
    e = copy.deepcopy(e)
    ps = [p for p in paths(e) if p and p[0] in only and p != ("tag",)]
    if not ps:
        return None
    # every field gets its share
    f = rng.choice(sorted({p[0] for p in ps}))
    p = rng.choice([q for q in ps if q[0] == f])
    o = e
    for k in p[:-1]:
        o = o[k]
    v = o[p[-1]]
    if isinstance(v, bool):
        o[p[-1]] = not v
    elif isinstance(v, int):
        o[p[-1]] = rng.choice([x for x in (v + 1, v ^ 1, v ^ 128 if v < 256 else v - 1, 0) if x != v])
        if f in ("post", "bytes"):
            o[p[-1]] %= 256
    elif isinstance(v, str):
        o[p[-1]] = {"ok": "err", "err": "ok"}.get(v, v + "x")
        if p == ("st",) and v == "err":
            return None
    elif isinstance(v, list):
        if not v:
            return None
        k = rng.randrange(3)
        i = rng.randrange(len(v))
        if k == 0:
            del v[i]
        elif k == 1:
            v.insert(i, copy.deepcopy(v[i]))
        else:
            j = rng.randrange(len(v))
            if v[i] == v[j]:
                return None
            v[i], v[j] = v[j], v[i]
    return e, p


FIELDS = {"write": ("st", "post"), "read": ("st", "tag"), "dump": ("st", "bytes"), "t": ("ret", "items", "count", "empty"),
          "views": ("views",), "codes": ("codes",), "idents": ("seen",), "twins": ("seen",), "consts": ("seen",),
          "display": ("text",)}


def main():
    prop = sys.argv[1]
    focus = sys.argv[2] if len(sys.argv) > 2 else prop
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 30
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    rng = random.Random(seed)
    drive.build()
    with tempfile.TemporaryDirectory() as tmp:
        h = drive.Harness(os.path.join(tmp, "h"))
        lines, what = [], []
        tasks = [("random", i) for i in range(n)] if plan.COUNT[prop][0] else [("codes",)]
        for t in tasks:
            for _, s in plan.scenario(prop, t, seed):
                _, es = drive.play(h, s)
                es = [e for e in es if e.get("fault", drive.NOFAULT)["mode"] == "none"]
                # a change of the last event leaves the rest as it was
                for _ in range(12):
                    c = [i for i, e in enumerate(es) if e["op"] in FIELDS]
                    if not c:
                        break
                    i = rng.choice(c)
                    x = changed(rng, es[i], FIELDS[es[i]["op"]])
                    if x is None or es[i]["st"] not in ("ok", "err"):
                        continue
                    for e in es[:i]:
                        lines.append(json.dumps(e))
                        what.append(None)
                    lines.append(json.dumps(x[0]))
                    what.append((es[i]["op"], x[1], es[i], x[0]))
        h.stop()
        path = os.path.join(tmp, "trace.ndjson")
        open(path, "w").write("\n".join(lines) + "\n")
        sys.stdout.flush()
        r = drive.judge(path, plan.MODULE[prop], focus, os.path.join(tmp, "t"), 3000)
    if not r["consumed"]:
        print("not consumed, last", max(r["reject"]))
    hit = {l - 1 for l, _ in r["reject"]}
    total, missed = 0, {}
    for i, w in enumerate(what):
        if w is None:
            continue
        total += 1
        if i not in hit:
            key = w[0] + ":" + w[2]["st"] + ":" + ".".join("*" if isinstance(k, int) else k for k in w[1])
            missed.setdefault(key, []).append(w)
    print("%s (%s): %d changes, %d rejected" % (prop, focus, total, total - sum(map(len, missed.values()))))
    for k, l in sorted(missed.items()):
        print("  not rejected: %s x%d" % (k, len(l)))
    if "-v" in sys.argv:
        for l in missed.values():
            for w in l[:3]:
                print(w[0], w[1], json.dumps(w[2])[:400], json.dumps(w[3])[:400], sep="\n   ")


if __name__ == "__main__":
    main()
