"""Scenarios of the tag interface (C11-C14), values (C20), codes (C18), the listing (C19),
identifiers (C21) and whole tags (C22)."""

import copy
import json
import os
import re

from . import tags as T

HERE = os.path.dirname(os.path.abspath(__file__))
ZERO = T.code(b"\0\0\0\0")
ALL = {"k": "all", "v": [], "n": 0, "id": ZERO, "not": False}


def fields():
    t = open(os.path.join(HERE, "..", "..", "spec", "TagNames.tla")).read()
    out = []
    for m in re.finditer(r'\[fld \|-> "(\w+)", cls \|-> "(\w+)", id \|-> \[k \|-> "(\w)", b \|-> <<([\d,]*)>>, '
                         r'mean \|-> <<([\d,]*)>>, name \|-> <<([\d,]*)>>\]', t):
        nums = lambda s: [int(x) for x in s.split(",")] if s else []
        out.append((m[1], m[2], {"k": m[3], "b": nums(m[4]), "mean": nums(m[5]), "name": nums(m[6])}))
    return out


FIELDS = fields()
SPECIAL = [T.code(b"trkn"), T.code(b"disk"), T.code(b"gnre"), T.code(b"\xa9gen")]


def op(g, m, **kw):
    o = {"op": "t", "g": g, "m": m, "id": ZERO, "idk": "d", "v": [], "vs": [], "n": -1, "o": 0, "p": ALL,
         "cls": "", "fld": ""}
    o.update(kw)
    return o


def load(items):
    return op("c", "load", vs=items)


def product(states, ops):
    """Operations, each from every one of the states of the model."""
    yield {"op": "begin"}
    for o in ops:
        for s in states:
            yield op("c", "clear")
            if s:
                yield load(s)
            yield o


def path(states, ops, rng, n):
    """A walk through the transitions of the model."""
    yield {"op": "begin"}
    yield load(rng.choice(states))
    for _ in range(n):
        yield rng.choice(ops)


KINDS = ["data", "bytes", "strings", "images"]


def stored(rng, i):
    """A value that may be found under an identifier, often one that fits it."""
    r = rng.random()
    c = bytes(i["b"]) if i["k"] == "f" else b""
    if r < 0.6:
        if c in (b"trkn", b"disk"):
            return {"t": rng.choice([0, 0, 0, 21]), "v": rng.choice([[], [0], [0, 0], [0, 0, 1], [0, 0, 1, 2], [0, 0, 0, 3, 9],
                    [0, 0, 0, 3, 0, 4], [0, 0, 1, 3, 2, 4, 0, 0], [9, 8, 0, 0, 0, 7, 6, 5], [0, 0, 0, 0, 0, 0],
                    [rng.randrange(256) for _ in range(rng.randrange(9))]])}
        if c == b"gnre":
            return {"t": rng.choice([0, 0, 0, 21, 1]), "v": rng.choice([[0, rng.randrange(90)], [0, 80], [0, 81], [0, 0],
                    [1, 3], [255, 255], [7], [], [0, rng.randrange(1, 81), 5]])}
        for f, cls, fid in FIELDS:
            if fid == i:
                if cls in ("single", "multi"):
                    return {"t": rng.choice([1, 1, 1, 2]), "v": T.text(rng, rng.randrange(5))}
                if cls in ("flag", "u16", "u32", "media", "rating"):
                    return {"t": rng.choice([21, 0]), "v": [rng.choice([0, 1, 2, 4, 9, 255, rng.randrange(256)])
                                                            for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5]))]}
                if cls == "art":
                    return T.value(rng, (0, 1, 3), t=rng.choice([13, 14, 27]))
    return T.value(rng, (0, 1, 2, 4))


def pool(rng):
    ids = [rng.choice(FIELDS)[2] for _ in range(5)] + SPECIAL
    ids += [T.freeform("com.apple.iTunes", "ISRC"), T.freeform("m", "n"), T.freeform("n", "m"), T.code(b"abcd"),
            T.freeform("com.apple.iTunes", "LYRICIST")]
    return rng.sample(ids, rng.choice([3, 5, 8]))


def some_items(rng, ids):
    n = rng.randrange(len(ids) + 1)
    return [{"id": i, "data": [stored(rng, i) for _ in range(rng.choice([1, 1, 2, 3]))]}
            for i in rng.sample(ids, n)]


def c_op(rng, ids):
    i = rng.choice(ids)
    k = rng.choice(KINDS)
    q = rng.choice(["n", "d"])
    w = rng.choice(["set", "setall", "add", "add", "addall", "of", "of", "take", "mut", "remove", "retain", "all",
                    "takeall", "mutall", "retainall", "clear", "isempty", "clone"])
    change = stored(rng, i) if k == "data" else rng.choice([[], [65], [66, 67]])
    p = {"k": rng.choice(["all", "none", "eq", "le", "type", "id"]), "v": rng.choice([[], [1], [97], [65, 66]]),
         "n": rng.choice([0, 1, 2, 13, 21]), "id": rng.choice(ids), "not": rng.random() < 0.4}
    # a predicate on the type needs values with a type, one on identifiers those
    if p["k"] == "type" and k in ("bytes", "strings"):
        p["k"] = "le"
    by = dict(id=i, idk=q)
    if w == "set":
        return op("c", "set_data", v=stored(rng, i), **by)
    if w == "setall":
        return op("c", "set_all_data", vs=[stored(rng, i) for _ in range(rng.choice([0, 1, 2, 3]))], **by)
    if w == "add":
        return op("c", "add_data", v=stored(rng, i), **by)
    if w == "addall":
        return op("c", "add_all_data", vs=[stored(rng, i) for _ in range(rng.choice([0, 1, 2, 3]))], **by)
    if w == "of":
        return op("c", k + "_of", **by)
    if w == "take":
        return op("c", "take_%s_of" % k, n=rng.choice([-1, -1, 0, 1, 2]), **by)
    if w == "mut":
        return op("c", k + "_mut_of", v=change, **by)
    if w == "remove":
        return op("c", "remove_%s_of" % k, **by)
    if w == "retain":
        if p["k"] == "id":
            p["k"] = "le"
        return op("c", "retain_%s_of" % k, p=p, id=i, idk="d")
    if w == "all":
        return op("c", k)
    if w == "takeall":
        return op("c", "take_" + k, n=rng.choice([-1, 0, 1, 3]))
    if w == "mutall":
        return op("c", k + "_mut", v=change)
    if w == "retainall":
        return op("c", "retain_" + k, p=p)
    if w == "clear" and rng.random() < 0.7:
        return op("c", "isempty")
    return op("c", w)


def f_op(rng, fs):
    f, cls, _ = rng.choice(fs)
    F = lambda m, **kw: op("f", m, fld=f, cls=cls, **kw)
    txt = lambda: T.text(rng, rng.randrange(6))
    img = lambda: T.value(rng, (0, 1, 4), t=rng.choice([13, 14, 27]))
    by = lambda n: [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]
    ms = {"single": ["get", "get", "set", "take", "remove"],
          "multi": ["get", "getall", "set", "setall", "add", "add", "addall", "take", "takeall", "remove"],
          "art": ["get", "getall", "set", "setall", "add", "add", "addall", "take", "takeall", "remove"]}
    m = rng.choice(ms.get(cls, ["get", "get", "set", "set", "remove"]))
    if m in ("getall", "takeall"):
        return F(m, n=rng.choice([-1, -1, 0, 1]) if m == "takeall" else -1)
    new = {"single": txt, "multi": txt, "art": img, "u16": lambda: by(2), "u32": lambda: by(4),
           "media": lambda: rng.randrange(8), "rating": lambda: rng.randrange(3), "flag": lambda: []}[cls]
    if m in ("set", "add"):
        return F(m, v=new())
    if m in ("setall", "addall"):
        return F(m, vs=[new() for _ in range(rng.randrange(4))])
    return F(m)


def pair_op(rng):
    g = rng.choice(["track", "disc"])
    m = rng.choice(["both", "number", "total", "set", "setnumber", "setnumber", "settotal", "settotal", "remove",
                    "removenumber", "removetotal"])
    n = lambda: rng.choice([0, 0, 1, 2, 255, 256, 65535, rng.randrange(65536)])
    return op(g, m, n=n(), o=n())


def genre_op(rng):
    m = rng.choice(["std", "stds", "setstd", "setstds", "addstd", "addstds", "removestds", "get", "getall", "take",
                    "takeall", "set", "setall", "add", "add", "remove"])
    c = lambda: rng.choice([0, 1, 79, 80, 81, 82, 256, 65535, rng.randrange(1, 81), rng.randrange(1, 81)])
    t = lambda: T.text(rng, rng.randrange(4))
    if m in ("setstd", "addstd"):
        return op("genre", m, v=c())
    if m in ("setstds", "addstds"):
        return op("genre", m, vs=[c() for _ in range(rng.randrange(4))])
    if m in ("set", "add"):
        return op("genre", m, v=t())
    if m == "setall":
        return op("genre", m, vs=[t() for _ in range(rng.randrange(4))])
    if m == "takeall":
        return op("genre", m, n=rng.choice([-1, 0, 1]))
    return op("genre", m)


def many(rng, ids, value):
    """Hundreds of values, or of items around those with the given identifiers."""
    n = rng.choice([130, 260, 300, 300])
    if rng.random() < 0.5:
        at = rng.choice(ids)
        return [{"id": i, "data": [value(rng, i) for _ in range(n if i == at else rng.choice([1, 2]))]}
                for i in shuffled(rng, ids[:6] + ([at] if at not in ids[:6] else []))]
    others = [T.code(bytes([a, b]) + b"z?") for a in range(97, 97 + 20) for b in range(65, 80)][:n]
    mine = shuffled(rng, ids[:6])
    k = rng.choice([0, 1, rng.randrange(len(mine) + 1)])
    return [{"id": i, "data": [value(rng, i)]} for i in mine[:k] + others + mine[k:]]


def shuffled(rng, xs):
    return rng.sample(xs, len(xs))


def history(prop, rng, crowd=False):
    """A long history; most operations are those the property is about, others happen in between."""
    ids = pool(rng)
    fs = rng.sample(FIELDS, rng.choice([2, 4, 8]))
    if prop == "C12":
        fs = fs + fs[:1]
    gens = {"C11": lambda: c_op(rng, ids), "C12": lambda: f_op(rng, fs), "C13": lambda: pair_op(rng),
            "C14": lambda: genre_op(rng)}
    if prop == "C12":
        ids = list({repr(x): x for x in ids + [f[2] for f in fs]}.values())
    if prop == "C13":
        ids = SPECIAL[:2] + ids[:2]
        ids = list({repr(x): x for x in ids}.values())
    if prop == "C14":
        ids = list({repr(x): x for x in SPECIAL[2:] + ids[:2]}.values())
    yield {"op": "begin"}
    yield load(many(rng, ids, stored) if crowd else some_items(rng, ids))
    for _ in range(40 if crowd else rng.choice([20, 40, 60])):
        r = rng.random()
        if r < 0.7:
            yield gens[prop]()
        elif r < 0.78:
            yield op("c", "clear") if rng.random() < 0.3 else load(many(rng, ids, stored) if crowd else some_items(rng, ids))
        else:
            yield gens[rng.choice(list(gens))]()


def views(rng):
    yield {"op": "begin"}
    for t in T.TYPES:
        for n in [0, 1, 2, 3, rng.randrange(4, 40)]:
            v = T.value(rng, (n,), t=t)
            yield {"op": "views", "v": v}
    if rng.random() < 0.1:
        for t in T.TYPES:
            yield {"op": "views", "v": T.value(rng, (255, 256, 70000), t=t)}


# -- the listing ---------------------------------------------------------------------------------

SHOWABLE = [9, 10, 13, 0, 1, 27, 31, 32, 34, 39, 92, 65, 97, 126, 127, 0xfc, 0x20ac, 0x65e5]


def like(rng, i):
    """An identifier that resembles the given one."""
    if i["k"] == "f":
        c = list(i["b"])
        r = rng.randrange(6)
        if r == 0:
            c[rng.randrange(4)] ^= 1 << rng.randrange(8)
        elif r == 1:
            c.reverse()
        elif r == 2:
            rng.shuffle(c)
        elif r == 3:
            c = [x ^ 0x20 if chr(x).isalpha() else x for x in c]
        elif r == 4:
            return {"k": "x", "b": [], "mean": [], "name": c}
        return T.code(bytes(c))
    m, n = list(i["mean"]), list(i["name"])
    r = rng.randrange(7)
    if r == 0:
        m, n = n, m
    elif r == 1:
        n = n[:-1]
    elif r == 2:
        n = n + [rng.choice([0, 32, 97])]
    elif r == 3:
        m = m + n[:1]
    elif r == 4:
        n = [ord(chr(x).swapcase()[0]) for x in n]
    elif r == 5:
        m = [ord(chr(x).swapcase()[0]) for x in m]
    return {"k": "x", "b": [], "mean": m, "name": n}


def idents(rng):
    yield {"op": "begin"}
    for _ in range(10):
        a = T.ident(rng)
        if rng.random() < 0.3:
            a = T.freeform("".join(map(chr, T.text(rng, rng.randrange(6)))), "".join(map(chr, T.text(rng, rng.randrange(6)))))
        yield {"op": "idents", "a": a, "b": a if rng.random() < 0.2 else like(rng, a)}
        yield {"op": "idents", "a": a, "b": T.ident(rng)}


def show_text(rng, n):
    return [rng.choice(SHOWABLE) if rng.random() < 0.4 else rng.randrange(32, 127) for _ in range(n)]


def show_value(rng, i):
    v = stored(rng, i)
    if v["t"] in (1, 2):
        v = {"t": v["t"], "v": show_text(rng, len(v["v"]))}
    if v["t"] in (13, 14, 27) and rng.random() < 0.15:
        n = rng.choice([1023, 1024, 1025, 2047, 2048, 10240])
        v = {"t": v["t"], "v": [0] * n}
        if rng.random() < 0.4:
            v["z"] = rng.choice([2**20, 2**20 + 1, 2**21 - 1, 2**20 - 1, 2**20 - 2048, 3 * 2**20, rng.randrange(2**22)])
    return v


def info(rng):
    def dur():
        s = rng.choice([0, 0, 1, 9, 59, 60, 61, 599, 600, 3599, 3600, 3661, 35999, 36000, 360000, 2**32, 2**53,
                        rng.randrange(10**6)])
        n = rng.choice([0, 1, 999, 1000, 999999, 10**6, 999999999, rng.randrange(10**9)])
        return [{"s": list(s.to_bytes(8, "big")), "n": list(n.to_bytes(4, "big"))}]

    rate = lambda: list(rng.choice([0, 1, 1023, 1024, 128000, 256000, 2**31, 2**32 - 1, rng.randrange(2**32)])
                        .to_bytes(4, "big"))
    some = lambda f, no: f() if rng.random() < 0.7 else no
    return {"dur": some(dur, []), "ch": some(lambda: rng.randint(1, 7), -1), "sr": some(lambda: rng.randrange(13), -1),
            "maxb": some(rate, []), "avgb": some(rate, [])}


def changed(rng, t):
    """The tag with a small change, or none."""
    t = copy.deepcopy(t)
    its = t["items"]
    k = rng.randrange(10)
    if k == 0:
        t["ftyp"] = rng.choice([t["ftyp"] + [32], t["ftyp"][:-1], [c ^ 1 for c in t["ftyp"][:1]] + t["ftyp"][1:]])
    elif k == 1:
        f = rng.choice(["dur", "ch", "sr", "maxb", "avgb"])
        t["info"][f] = info(rng)[f]
    elif its and k == 2:
        its.append(its.pop(rng.randrange(len(its))))
    elif its and k == 3:
        its.pop(rng.randrange(len(its)))
    elif its and k < 8:
        it = rng.choice(its)
        d = it["data"]
        if k == 4:
            d.append(d.pop(rng.randrange(len(d))))
        elif k == 5:
            d.append(copy.deepcopy(rng.choice(d)))
        elif k == 6:
            v = rng.choice(d)
            v["t"] = rng.choice([0, 13, 14, 21, 27] if v["t"] not in (1, 2) else [1, 2])
        else:
            v = rng.choice(d)["v"]
            if v and rng.random() < 0.6:
                v[rng.randrange(len(v))] = rng.randrange(1, 128)
            else:
                v.append(rng.randrange(1, 128))
    elif its and k == 8:
        i = rng.choice(its)["id"]
        rng.choice(its)["id"] = like(rng, i)
    return t


def twins(rng):
    yield {"op": "begin"}
    for _ in range(8):
        a = {"ftyp": T.text(rng, rng.randrange(9)), "info": info(rng), "items": T.items(rng)}
        b = a
        for _ in range(rng.choice([0, 1, 1, 2])):
            b = changed(rng, b)
        if rng.random() < 0.2:
            b = {"ftyp": a["ftyp"], "info": a["info"], "items": T.items(rng)}
        yield {"op": "twins", "a": a, "b": b}


def many_twins(rng):
    yield {"op": "begin"}
    a = {"ftyp": T.text(rng, 4), "info": info(rng),
         "items": many(rng, [x["id"] for x in T.items(rng, 3, 5)] + [T.code(b"abcd")], lambda r, i: T.value(r, (1, 2)))}
    yield {"op": "twins", "a": a, "b": a}
    for _ in range(6):
        b = json.loads(json.dumps(a))
        at = rng.choice([x for x in b["items"] if len(x["data"]) > 9] or b["items"])
        k = rng.randrange(3)
        if k == 0:
            at["data"][rng.choice([-1, 0, len(at["data"]) // 2])]["v"].append(65)
        elif k == 1:
            b["items"].pop(rng.choice([-1, 0, len(b["items"]) // 2]))
        elif len(at["data"]) > 1:
            at["data"].pop()
        yield {"op": "twins", "a": a, "b": b}
        yield {"op": "twins", "a": b, "b": a}


def many_listed(rng):
    yield {"op": "begin"}
    ids = rng.sample([f[2] for f in FIELDS] + SPECIAL + [T.freeform("m", "n"), T.freeform("c", "i")], 8)
    ids = list({repr(x): x for x in ids}.values())
    yield {"op": "display", "ftyp": show_text(rng, 4), "info": info(rng), "items": many(rng, ids, show_value)}


def model_twins(rng, t, es):
    yield {"op": "begin"}
    yield {"op": "twins", "a": t, "b": t}
    for k, e in enumerate(es):
        a, b = (t, e) if rng.random() < 0.5 else (e, t)
        yield {"op": "twins", "a": a, "b": b}
        yield {"op": "twins", "a": e, "b": rng.choice(es)}


def display(rng):
    yield {"op": "begin"}
    for _ in range(4):
        ids = [f[2] for f in FIELDS] + SPECIAL + [T.freeform("m", "n"), T.freeform("com.apple.iTunes", "ISRC"),
                                                  T.freeform("é", ""), T.code(b"abcd")]
        ids = list({repr(x): x for x in ids}.values())
        k = rng.choice([0, 1, 3, 8, 20, len(ids)])
        items = [{"id": i, "data": [show_value(rng, i) for _ in range(rng.choice([1, 1, 2, 3]))]}
                 for i in rng.sample(ids, k)]
        yield {"op": "display", "ftyp": show_text(rng, rng.randrange(9)), "info": info(rng), "items": items}


def display_each(rng, k):
    """Every field alone, with one and with two values."""
    yield {"op": "begin"}
    none = {"dur": [], "ch": -1, "sr": -1, "maxb": [], "avgb": []}
    ids = [f[2] for f in FIELDS] + SPECIAL
    for i in ids[k::8]:
        for n in (1, 2, 3):
            yield {"op": "display", "ftyp": T.cps("M4A "), "info": none,
                   "items": [{"id": i, "data": [show_value(rng, i) for _ in range(n)]}]}


def codes():
    yield {"op": "begin"}
    for c in range(256):
        yield {"op": "codes", "c": c}
