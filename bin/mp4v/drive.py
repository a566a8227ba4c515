"""Runs scenarios in the harness, turns what happened into traces, and has TLC judge them."""

import json
import os
import re
import signal
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.environ.get("MP4V_TARGET") or os.path.join(ROOT, ".build")
HARNESS = os.path.join(TARGET, "debug", "mp4v-harness")
LIM = 2**31 - 1


class CheckError(Exception):
    """The check itself didn't work; no verdict."""


def build():
    env = dict(os.environ, RUSTFLAGS="--cap-lints warn", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("building the harness failed:\n" + r.stdout[-4000:])


def java(mem, tmp, *args):
    """The command line of TLC; `tmp` is an existing folder for its temporary files."""
    return ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m", "-cp", JARS,
            "tlc2.TLC", "-noGenerateSpecTE"] + list(args)


class Harness:
    def __init__(self, scratch):
        os.makedirs(scratch, exist_ok=True)
        self.scratch = scratch
        self.p = None

    def start(self):
        self.p = subprocess.Popen([HARNESS, self.scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def run(self, op):
        """The report, or how the process ended."""
        if self.p is None:
            self.start()
        line = json.dumps({k: v for k, v in op.items() if not k.startswith("_")}, separators=(",", ":"))
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except BrokenPipeError:
            out = b""
        if not out.endswith(b"\n"):
            self.p.stdin.close()
            rc = self.p.wait()
            self.p.stdout.close()
            self.p = None
            return None, ("timeout" if rc in (-signal.SIGALRM, -signal.SIGPROF) else "crash")
        return json.loads(out), None

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()
            self.p.stdout.close()
            self.p = None


NOERR = {"k": "", "a": [], "c": [], "d": ""}
NOFAULT = {"class": "none", "mode": "none", "errno": 0}


def cap(x):
    if isinstance(x, list):
        return [cap(y) for y in x]
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return max(-1, min(x, LIM))
    return x


# ways of opening that fail, and the errors of the operating system
OPEN = {"missing": 2, "folder": 21, "readonly": 9, "writeonly": 9}


def fault_of(op):
    if op.get("how") in OPEN:
        return {"class": "open", "mode": op["how"], "errno": OPEN[op["how"]]}
    f = op.get("fault")
    if not f:
        return NOFAULT
    if f["mode"] == "script":
        # what its end amounts to: a failure, a transfer of nothing, or partial transfers
        end = f["script"][-1]
        mode = end["k"] if end["k"] in ("err", "zero") else "short"
        return {"class": f["class"], "mode": mode, "errno": end["n"] if mode == "err" else 0}
    return {"class": f["class"], "mode": f["mode"], "errno": f["errno"]}


def plain(items):
    """Items without how much is left out of their values."""
    return [{"id": it["id"], "data": [{"t": v["t"], "v": v["v"]} for v in it["data"]]} for it in items]


CONTAINERS = {(b"moov",): 0, (b"moov", b"udta"): 0, (b"moov", b"udta", b"meta"): 4, (b"moov", b"udta", b"meta", b"ilst"): 0,
              (b"moov", b"trak"): 0, (b"moov", b"trak", b"mdia"): 0, (b"moov", b"trak", b"mdia", b"minf"): 0,
              (b"moov", b"trak", b"mdia", b"minf", b"stbl"): 0}


def shrink(f, cut, k):
    """The file from which k zeros were left out at `cut`: what counts them counts them no more."""
    f = bytearray(f)
    n = len(f)

    def walk(p, end, path):
        while p + 8 <= end:
            w, q, hl = 4, p, 8
            fcc = bytes(f[p + 4:p + 8])
            ln = int.from_bytes(f[p:p + 4], "big")
            if ln == 1 and p + 16 <= end:
                w, q, hl = 8, p + 8, 16
                ln = int.from_bytes(f[q:q + 8], "big")
            if ln < hl:
                return
            if p + hl <= cut and p + ln >= cut + k:
                ln -= k
                f[q:q + w] = ln.to_bytes(w, "big")
            if p + ln > end:
                return
            here = path + (fcc,)
            if here in CONTAINERS or path == (b"moov", b"udta", b"meta", b"ilst"):
                walk(p + hl + CONTAINERS.get(here, 0), p + ln, here)
            elif here == (b"moov", b"trak", b"mdia", b"minf", b"stbl", b"co64"):
                for e in range(p + hl + 8, p + ln - 7, 8):
                    v = int.from_bytes(f[e:e + 8], "big")
                    if v >= cut + k:
                        f[e:e + 8] = (v - k).to_bytes(8, "big")
            p += ln

    walk(0, n, ())
    return list(f)


class Tracer:
    """Events of a scenario, as the trace specifications take them."""

    def __init__(self):
        self.items = []
        self.disk = []
        self.squeeze = 0

    def event(self, op, out, died):
        k = op["op"]
        if k == "begin":
            self.items, self.disk = [], []
            self.squeeze = op.get("squeeze", 0)
            return {"op": "begin"}
        if k == "disk":
            self.disk = op["bytes"]
            return {"op": "disk", "bytes": op["bytes"]}
        o = out or {"st": died}
        if self.squeeze:
            o = dict(o, peak=0)
            for x in ("post", "bytes"):
                if x in o and o.get("cut"):
                    o[x] = shrink(o[x], o["cut"][0], self.squeeze)
            if "items" in op:
                op = dict(op, items=plain(op["items"]))
        err = o.get("err") or NOERR
        err = {"k": err["k"], "a": cap(err["a"]), "c": cap(err.get("c", [])), "d": err.get("d", "")}
        e = {"op": k, "st": o["st"], "err": err, "fault": fault_of(op), "fired": cap(o.get("fired", 0)),
             "peak": cap(o.get("peak", 0)), "left": o.get("left", False)}
        if k == "write":
            e.update(items=op.get("items", self.items), self=op.get("_self", False), log=op.get("log", False),
                     at=op.get("at", 0),
                     post=o.get("post", self.disk),
                     ops=[{"w": cap(x["w"]), "b": x.get("b", []), "n": cap(x.get("n", 0))} for x in o.get("ops", [])])
            self.disk = e["post"]
        elif k == "read":
            e.update(own="bytes" in op, post=o.get("post", self.disk), bytes=op.get("bytes", []), at=op.get("at", 0), how=op["how"],
                     one=op.get("_one", False), tag=o.get("tag", []))
            if op.get("keep") and e["tag"]:
                self.items = e["tag"][0]["items"]
            if e["own"] and e["how"] in ("path", "file", "handle"):
                self.disk = op["bytes"]
        elif k == "dump":
            e.update(items=op.get("items", self.items), bytes=o.get("bytes", []))
        elif k == "t":
            e = {x: op[x] for x in ("op", "g", "m", "id", "v", "vs", "n", "o", "p", "cls", "fld")}
            e.update(st=o["st"], ret=o.get("ret", []), items=o.get("items", []), count=o.get("count", []),
                     empty=o.get("empty", True))
            self.items = e["items"]
        elif k == "views":
            e = {"op": k, "v": op["v"], "st": o["st"], "views": o.get("views") or {"x": 0}}
        elif k == "codes":
            e = {"op": k, "c": op["c"], "st": o["st"], "codes": o.get("codes") or {"x": 0}}
        elif k in ("idents", "twins"):
            e = {"op": k, "a": op["a"], "b": op["b"], "st": o["st"], "seen": o.get("seen") or {"x": 0}}
        elif k == "consts":
            e = {"op": k, "st": o["st"], "seen": o.get("seen") or {"x": 0}}
        elif k == "display":
            e = {"op": k, "ftyp": op["ftyp"], "info": op["info"], "items": op["items"], "st": o["st"],
                 "text": o.get("text", []), "same": o.get("same", False)}
        return e


def clean(op):
    return {k: v for k, v in op.items() if k != "_self" or v}


def play(h, scenario):
    """Runs a scenario: (operations, events)."""
    tr = Tracer()
    ops, events = [], []
    it = iter(scenario) if not hasattr(scenario, "send") else scenario
    out = None
    while True:
        try:
            op = it.send(out) if hasattr(it, "send") else next(it)
        except StopIteration:
            break
        out, died = h.run(op)
        ops.append(op)
        events.append(tr.event(op, out, died))
        if died:
            if hasattr(it, "close"):
                it.close()
            break
        if "counts" in out and not out["counts"]:
            out["counts"] = [0, 0, 0, 0]
    return ops, events


def judge(trace, module, focus, scratch, timeout):
    """TLC's verdict on a trace file: rejected clauses, clause counts, drift."""
    os.makedirs(scratch, exist_ok=True)
    cfg = os.path.join(scratch, "trace.cfg")
    with open(cfg, "w") as f:
        f.write('CONSTANT Focus = "%s"\nSPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n' % focus)
    meta = os.path.join(scratch, "meta")
    r = subprocess.run(java("3g", scratch, "-workers", "1", "-metadir", meta, "-config", cfg, module + ".tla"), cwd=SPEC,
                       env=dict(os.environ, TRACE=trace), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    subprocess.run(["rm", "-rf", meta])
    res = {"reject": [], "clauses": {}, "drift": 0, "consumed": None, "states": 0}
    for line in r.stdout.splitlines():
        m = re.match(r'<<"REJECT", (\d+), "([\w.]+)">>', line)
        if m:
            res["reject"].append((int(m[1]), m[2]))
            continue
        if line.startswith('<<"DRIFT"'):
            res["drift"] += 1
            continue
        m = re.match(r'<<"CLAUSES", "(.*)">>', line)
        if m:
            c = json.loads(m[1].replace('\\"', '"'))
            res["clauses"] = c if isinstance(c, dict) else {}
            continue
        m = re.match(r'<<"CONSUMED", (\d+), (\d+)>>', line)
        if m:
            res["consumed"] = (int(m[1]), int(m[2]))
    if not res["reject"] and (res["consumed"] is None or res["consumed"][0] != res["consumed"][1]):
        keep = os.path.join(ROOT, ".work", "failed-" + os.path.basename(trace))
        subprocess.run(["cp", trace, keep])
        raise CheckError("the trace %s wasn't consumed (%s, kept as %s):\n%s" %
                         (trace, res["consumed"], keep, r.stdout[-3000:]))
    return res


class Worker:
    """Plays scenarios, and has the traces judged in chunks."""

    def __init__(self, prop, module, scratch, focus=None, limit=3_000_000, keep=None):
        self.prop, self.module, self.scratch = prop, module, scratch
        self.focus = focus or prop
        self.limit = limit
        self.h = Harness(os.path.join(scratch, "h"))
        self.n = 0
        self.keep = keep
        self.reset()
        self.total = {"clauses": {}, "events": 0, "scenarios": 0, "drift": 0, "violations": [], "calls": 0,
                      "sizes": 0, "ops": {}}

    def reset(self):
        self.buf, self.size, self.ev, self.origin = [], 0, [], []

    def add(self, name, scenario):
        ops, events = play(self.h, scenario)
        self.total["scenarios"] += 1
        for i, e in enumerate(events):
            line = json.dumps(e, separators=(",", ":"))
            self.size += len(line)
            self.buf.append(line)
            self.origin.append((len(self.ev), i))
            key = e["op"] + ("." + e["g"] + "." + e["m"] if e["op"] == "t" else "")
            self.total["ops"][key] = self.total["ops"].get(key, 0) + 1
        self.ev.append((name, ops))
        self.total["events"] += len(events)
        self.total["calls"] += sum(1 for e in events if e["op"] not in ("begin", "disk"))
        if self.size > self.limit:
            self.flush()

    def flush(self):
        if not self.buf:
            return
        self.n += 1
        path = os.path.join(self.scratch, "trace-%d.ndjson" % self.n)
        with open(path, "w") as f:
            f.write("\n".join(self.buf) + "\n")
        r = judge(path, self.module, self.focus, os.path.join(self.scratch, "t%d" % self.n), 840)
        for c, k in r["clauses"].items():
            self.total["clauses"][c] = self.total["clauses"].get(c, 0) + k
        self.total["drift"] += r["drift"]
        for l, c in r["reject"]:
            s, i = self.origin[l - 1]
            name, ops = self.ev[s]
            if len(self.total["violations"]) < 20:
                self.total["violations"].append({"clause": c, "scenario": name, "event": i,
                                                 "operations": [clean(o) for o in ops[:i + 1]],
                                                 "seen": json.loads(self.buf[l - 1])})
        os.remove(path)
        self.reset()

    def finish(self):
        self.flush()
        self.h.stop()
        return self.total
