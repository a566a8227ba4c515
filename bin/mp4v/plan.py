"""What each property's check consists of."""

import random

from . import scen, tagscen

FILEP = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C16", "C17"]
TAGP = ["C11", "C12", "C13", "C14", "C18", "C19", "C20", "C21", "C22"]
MODULE = {p: "TraceFile" for p in FILEP}
MODULE.update({p: "TraceTag" for p in TAGP})
LEVEL = {p: "model_checking" for p in FILEP + TAGP}

ASSUMPTIONS = [
    "TLC and the JSON modules evaluate the specification correctly",
    "the harness reports what the library did (it decides nothing)",
    "inputs beyond the generated ones behave like them",
]

# clauses that must have been evaluated for a run to count
REQUIRED = {
    "C01": ["C01.at", "C01.accepted", "C01.stored", "C01.readback"],
    "C02": ["C02.structure", "C02.media", "C02.offsets"],
    "C03": ["C03.at", "C03.nested", "C03.others", "C03.created"],
    "C04": ["C04.at", "C04.untouched", "C04.first", "C04.refused"],
    "C05": ["C05.history", "C05.twice", "C05.writeback", "C05.reread"],
    "C06": ["C06.read", "C06.items", "C06.ftyp"],
    "C07": ["C07.kept", "C07.info"],
    "C08": ["C08.outcome", "C08.memory", "C08.untouched"],
    "C09": ["C09.at", "C09.outcome", "C09.memory", "C09.refused", "C09.readable", "C09.reread"],
    "C10": ["C10.accepted", "C10.shape", "C10.handler", "C10.items", "C10.same", "C10.list"],
    "C11": ["C11.result", "C11.items", "C11.valid", "C11.count", "C11.empty"],
    "C12": ["C12.result", "C12.items", "C12.valid", "C12.empty"],
    "C13": ["C13.result", "C13.items", "C13.valid", "C13.empty"],
    "C14": ["C14.result", "C14.items", "C14.valid", "C14.empty", "C14.table"],
    "C15": ["C15.error", "C15.seek", "C15.zero", "C15.partial", "C15.open", "C15.handle",
            "C15.readonly"],
    "C16": ["C16.at", "C16.during", "C16.end"],
    "C17": ["C17.error", "C17.kind", "C17.detail", "C17.shown"],
    "C18": ["C18.media", "C18.rating", "C18.channel", "C18.rate", "C18.image"],
    "C19": ["C19.outcome", "C19.text", "C19.unchanged"],
    "C20": ["C20.bytes", "C20.text", "C20.image", "C20.type", "C20.length", "C20.mutable"],
    "C21": ["C21.equal", "C21.found", "C21.form", "C21.text", "C21.names"],
    "C22": ["C22.tags", "C22.values", "C22.copies"],
}

# random scenarios: quick, thorough
COUNT = {
    "C01": (800, 20000), "C02": (800, 20000), "C03": (800, 20000), "C04": (1000, 16000), "C05": (450, 10000),
    "C06": (600, 12000), "C07": (500, 12000), "C08": (800, 20000), "C09": (800, 20000), "C10": (400, 8000),
    "C15": (180, 2000), "C16": (400, 8000), "C17": (1500, 20000),
    "C11": (600, 8000), "C12": (900, 8000), "C13": (1000, 8000), "C14": (700, 8000),
    "C18": (0, 0), "C19": (900, 10000), "C20": (150, 3000), "C21": (400, 4000), "C22": (600, 4000),
}

# properties whose checks include files and tags that are larger than buffers
# what interrupted writes leave
MANY = ["C11", "C12", "C13", "C14", "C19", "C22"]
CRASHED = ["C04", "C08", "C09", "C16"]
# not at the beginning of the file
OFFSET = ["C01", "C03", "C04", "C09", "C16"]
LARGE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C16", "C17"]
HUGE = ["C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10"]

WRITE_INV = {"C01": ["C01_ReadBack", "C01_Accepted"], "C02": ["C02_Media"], "C03": ["C03_OnlyList"],
             "C04": ["C04_Refused"], "C05": ["C05_NoHistory"], "C07": ["C07_Info"], "C16": ["C16_Prefix"]}
TAG_PART = {"C11": "c", "C12": "f", "C13": "pair", "C14": "genre"}


READ_INV = {"C04": ["C04_NoSteps"], "C06": ["C06_Items"], "C07": ["C07_Info"], "C08": ["C08_Total"],
            "C09": ["C09_Safe"], "C17": ["C17_Cause"]}
# properties that are also judged on harmless changes of the layouts of MC_Read
READ_ALSO = ["C01", "C02", "C03", "C05", "C16"]
# changed files played by the quick tier
EDITS = {"C08": 20000, "C17": 20000, "C06": 6000, "C07": 5000, "C09": 7000, "C04": 4000}


def read_model(prop, tier):
    if prop not in READ_INV and prop not in READ_ALSO:
        return []
    quick = tier == "quick"
    return [{"name": "read", "module": "MC_Read", "export": True,
             "constants": {"Damage": 8, "AllCodes": "FALSE" if quick else "TRUE",
                           "Wide": "FALSE" if quick else "TRUE"},
             "invariants": ["SoundWellFormed"] + READ_INV.get(prop, []), "workers": 4}]


def models(prop, tier):
    return write_model(prop, tier) + read_model(prop, tier) + dump_model(prop, tier) + value_model(prop, tier)


VALUE = {"C18": ("codes", ["C18_OneToOne", "C18_Stored", "C18_Decoded"]),
         "C19": ("list", ["C19_Nothing", "C19_Adds", "C19_Order", "C19_Present", "C19_Lines"]),
         "C20": ("views", ["C20_OneClass", "C20_OneType", "C20_Agree", "C20_Stored", "C20_Length", "C20_Kind"]),
         "C21": ("idents", ["C21_Equivalence", "C21_OneForm", "C21_Found", "C21_Shown", "C21_Names"]),
         "C22": ("twins", ["C22_Copy", "C22_Equivalence", "C22_Tells", "C22_Loaded"])}


def value_model(prop, tier):
    if prop not in VALUE:
        return []
    quick = tier == "quick"
    return [{"name": "value", "module": "MC_Value", "export": True,
             "constants": {"Parts": '{"%s"}' % VALUE[prop][0], "Most": 2 if quick else 3, "Steps": 2 if quick else 4},
             "invariants": VALUE[prop][1]}]


DUMP_INV = {"C10": ["C10_Shape", "C10_Items", "C10_Again", "C10_List"],
            "C15": ["C15_Prefix", "C15_Whole", "C15_Honest"]}


def dump_model(prop, tier):
    if prop not in DUMP_INV:
        return []
    calls = 4 if tier == "quick" else 5
    return [{"name": "dump", "module": "MC_Dump", "export": True,
             "constants": {"MaxCalls": calls if prop == "C15" else 1, "Errors": "{5, 28}", "Parts": "{1, 5}"},
             "invariants": DUMP_INV[prop], "properties": ["C15_Ends"] if prop == "C15" else []}]


def write_model(prop, tier):
    if prop in WRITE_INV:
        ms = [{"name": "write", "module": "MC_Write", "export": True,
               "constants": {"Wide": "FALSE", "MaxWrites": 2, "Short": "{1, 5}"},
               "invariants": ["LayoutsWellFormed"] + WRITE_INV[prop]}]
        return ms
    if prop in TAG_PART:
        return [{"name": "tag", "module": "MC_Tag", "export": True,
                 "constants": {"Parts": '{"%s"}' % TAG_PART[prop], "MaxOps": 1},
                 "invariants": ["TagValid", "LawsHold"]}]
    return []


def tasks(prop, tier, seed, exports):
    quick = tier == "quick"
    n = COUNT[prop][0 if quick else 1]
    ts = [("random", i) for i in range(n)]
    if "write" in exports:
        ts += [("layout", k, l) for k, l in enumerate(exports["write"])]
    if "tag" in exports:
        for u in exports["tag"]:
            states, ops = u["states"], [dict(o, op="t") for o in u["ops"]]
            r = random.Random("%s-%s" % (seed, u["part"]))
            budget = {"C11": 40000, "C12": 1300, "C13": 12000, "C14": 40000}[prop]
            if quick and len(states) * len(ops) > budget:
                # every operation, from a sample of the states
                k = max(4, budget // len(ops))
                chunks = [(o, r.sample(states, min(k, len(states)))) for o in ops]
            else:
                chunks = [(o, states) for o in ops]
            for o, s in chunks:
                ts.append(("product", s, [o]))
            for i in range(6 if quick else 60):
                ts.append(("path", states, ops, i))
    if "read" in exports:
        es = [(k, i) for k, x in enumerate(exports["read"]) for i, e in enumerate(x["edits"])
              if scen.edit_concerns(prop, e)]
        if quick:
            r = random.Random("%s-edits" % seed)
            es = r.sample(es, min(len(es), EDITS.get(prop, 2500)))
        by = {}
        for k, i in es:
            by.setdefault(k, []).append(exports["read"][k]["edits"][i])
        for k, l in by.items():
            f = exports["read"][k]["bytes"]
            ts += [("edits", k, f, l[j:j + 40]) for j in range(0, len(l), 40)]
        if prop in ("C06", "C07"):
            sound = [x["bytes"] for x in exports["read"] if not x["edits"]]
            ts += [("sound", j, sound[j:j + 20]) for j in range(0, len(sound), 20)]
    if "dump" in exports:
        x = exports["dump"][0]
        if prop == "C10":
            ts += [("dumped", k, it, x["files"]) for k, it in enumerate(x["items"])]
        else:
            r = random.Random("%s-schedules" % seed)
            for k in range(2 if quick else 20):
                s = list(x["schedules"])
                r.shuffle(s)
                ts += [("schedules", "%d-%d" % (k, j), s[j:j + 12], x["items"], x["files"])
                       for j in range(0, len(s), 12)]
    if "value" in exports:
        x = exports["value"][0]
        if prop == "C20":
            ts += [("values", j, x["values"][j:j + 20]) for j in range(0, len(x["values"]), 20)]
        elif prop == "C21":
            ids = x["idents"]
            ts += [("idents", j, a, ids) for j, a in enumerate(ids)] + [("consts",)]
        elif prop == "C22":
            ts += [("twins", j, y["t"], y["e"]) for j, y in enumerate(x["twins"])]
        elif prop == "C19":
            es = x["entries"]
            r = random.Random("%s-entries" % seed)
            tags = [[]] + [[e] for e in es] + [[a, b] for a in es for b in es if a["id"] != b["id"]]
            keep = tags[:1 + len(es)] + r.sample(tags[1 + len(es):], 1200 if quick else len(tags) - 1 - len(es))
            ts += [("listed", j, x["ftyp"], x["info"], keep[j:j + 40]) for j in range(0, len(keep), 40)]
    if prop in LARGE:
        ts += [("large", i) for i in range({"C17": 30, "C02": 18, "C04": 18}.get(prop, 6) if quick else 120)]
        if prop != "C10":
            ts += [("crowd", i) for i in range(len(scen.CROWD) * (1 if quick else 12))]
        if prop not in ("C04", "C10", "C15", "C17"):
            ts += [("beyond", i) for i in range(8 if quick else 200)]
    if prop in ("C08", "C09"):
        ts += [("nested", i) for i in range(len(scen.DEEP_ALL) * (1 if quick else 8))]
    if prop in CRASHED:
        ts += [("crashed", i) for i in range(40 if quick else 1000)]
    if prop in OFFSET:
        ts += [("offset", i) for i in range(40 if quick else 1000)]
    if prop in HUGE:
        ts += [("huge", (16 if prop == "C10" else 5) if quick else 100,
                (1 if prop == "C02" else 0) if quick else (20 if prop in ("C02", "C03", "C05") else 0))]
    if prop in MANY:
        ts += [("many", i) for i in range(32 if quick else 400)]
    if prop == "C18":
        ts.append(("codes",))
    if prop == "C14":
        ts.append(("codes",))
    if prop == "C19":
        ts += [("each", k) for k in range(8)]
    random.Random(seed).shuffle(ts)
    ts.sort(key=lambda t: t[0] != "huge")       # it takes longest
    return ts


def seq(ops):
    for o in ops:
        yield o


def scenario(prop, t, seed):
    kind = t[0]
    if kind == "random":
        name = "%s-%d-%d" % (prop, seed, t[1])
        rng = random.Random(name)
        if prop in scen.FILE:
            yield name, scen.FILE[prop](rng, t[1])
        elif prop == "C20":
            yield name, tagscen.views(rng)
        elif prop == "C21":
            yield name, tagscen.idents(rng)
        elif prop == "C22":
            yield name, tagscen.twins(rng)
        elif prop == "C19":
            yield name, tagscen.display(rng)
        else:
            yield name, tagscen.history(prop, rng)
    elif kind == "many":
        name = "many-%s-%d-%d" % (prop, seed, t[1])
        rng = random.Random(name)
        yield name, (tagscen.many_twins(rng) if prop == "C22" else tagscen.many_listed(rng) if prop == "C19" else
                     tagscen.history(prop, rng, crowd=True))
    elif kind == "crowd":
        name = "crowd-%s-%d-%d" % (prop, seed, t[1])
        yield name, scen.large(prop, random.Random(name), t[1], scen.CROWD[t[1] % len(scen.CROWD)])
    elif kind == "large":
        name = "large-%s-%d-%d" % (prop, seed, t[1])
        yield name, scen.large(prop, random.Random(name), t[1])
    elif kind == "beyond":
        name = "beyond-%s-%d-%d" % (prop, seed, t[1])
        yield name, scen.beyond(prop, random.Random(name), t[1])
    elif kind == "crashed":
        name = "crashed-%s-%d-%d" % (prop, seed, t[1])
        yield name, scen.crashed(prop, random.Random(name), t[1])
    elif kind == "offset":
        name = "offset-%s-%d-%d" % (prop, seed, t[1])
        yield name, scen.offset(prop, random.Random(name), t[1])
    elif kind == "nested":
        name = "nested-%s-%d-%d" % (prop, seed, t[1])
        yield name, scen.nested(prop, random.Random(name), t[1])
    elif kind == "huge":
        # one at a time: an implementation may need as much memory
        for i in range(t[1]):
            name = "huge-%s-%d-%d" % (prop, seed, i)
            yield name, scen.huge(prop, random.Random(name), i)
        for i in range(t[2]):
            name = "behind-%s-%d-%d" % (prop, seed, i)
            yield name, scen.behind(prop, random.Random(name), i)
    elif kind == "layout":
        yield "layout-%d" % t[1], scen.model_layout(prop, t[2], t[1])
    elif kind == "edits":
        yield "edits-%d" % t[1], scen.model_edits(prop, t[2], t[3])
    elif kind == "sound":
        yield "sound-%d" % t[1], scen.model_sound(prop, t[2])
    elif kind == "values":
        yield "values-%d" % t[1], seq([{"op": "begin"}] + [{"op": "views", "v": v} for v in t[2]])
    elif kind == "idents":
        yield "idents-%d" % t[1], seq([{"op": "begin"}] + [{"op": "idents", "a": t[2], "b": b} for b in t[3]])
    elif kind == "twins":
        yield "twins-%d" % t[1], tagscen.model_twins(random.Random("%d-%d" % (seed, t[1])), t[2], t[3])
    elif kind == "consts":
        yield "consts", seq([{"op": "begin"}, {"op": "consts"}])
    elif kind == "listed":
        yield "listed-%d" % t[1], seq([{"op": "begin"}] + [
            {"op": "display", "ftyp": t[2], "info": t[3], "items": its} for its in t[4]])
    elif kind == "dumped":
        yield "dumped-%d" % t[1], scen.model_dumped(t[2], t[3])
    elif kind == "schedules":
        yield "schedules-%s" % t[1], scen.model_schedules(random.Random("%d-%s" % (seed, t[1])), t[2], t[3], t[4])
    elif kind == "product":
        yield "product", tagscen.product(t[1], t[2])
    elif kind == "path":
        yield "path-%d" % t[3], tagscen.path(t[1], t[2], random.Random("%d-%d" % (seed, t[3])), 40)
    elif kind == "codes":
        yield "codes", tagscen.codes()
    elif kind == "each":
        yield "each-%d" % t[1], tagscen.display_each(random.Random(seed * 100 + t[1]), t[1])


def samples(prop, ts, seed):
    """A few of the scenarios of this run, by their first operations."""
    out = []
    for t in ts[:3]:
        for name, s in scenario(prop, t, seed):
            ops = []
            try:
                o = s.send(None)
                for _ in range(2):
                    ops.append({k: v for k, v in o.items() if not k.startswith("_")})
                    o = s.send({"st": "ok", "counts": [0, 0, 0, 0], "bytes": [], "tag": [], "post": []})
                ops.append(o)
            except StopIteration:
                pass
            out.append({"scenario": name, "operations": ops})
    return out
