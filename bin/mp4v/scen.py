"""Scenarios: coroutines that yield operations for the harness and receive what it reports.

A scenario is reproducible from (seed, property, index). Fields of an operation whose name starts
with "_" are hints for the trace and aren't sent."""

import random

from . import boxes as B
from . import tags as T

NOITEMS = []


def begin():
    return {"op": "begin"}


def disk(f):
    return {"op": "disk", "bytes": list(f)}


def sparse(f, at, n, add):
    """The file with n zeros inserted; the fields (position, width) grow by n."""
    return dict(disk(f), hole={"at": at, "len": n, "add": add})


def write(items=None, how="path", log=False, fault=None, me=False, at=0):
    o = {"op": "write", "how": how, "log": log, "_self": me, "at": at}
    if items is not None:
        o["items"] = items
    if fault:
        o["fault"] = fault
    return o


def read(f=None, how="cursor", at=0, fault=None, keep=False, one=False):
    o = {"op": "read", "how": how, "at": at, "keep": keep, "_one": one}
    if f is not None:
        o["bytes"] = list(f)
    if fault:
        o["fault"] = fault
    return o


def dump(items=None, how="vec", over=None, fault=None):
    o = {"op": "dump", "how": how}
    if items is not None:
        o["items"] = items
    if over is not None:
        o["over"] = list(over)
    if fault:
        o["fault"] = fault
    return o


def fault(cls, n, mode="err", errno=5, ln=1, sticky=False):
    return {"class": cls, "n": n, "mode": mode, "errno": errno, "len": ln, "sticky": sticky}


CLASSES = ["read", "write", "seek", "resize"]
ERRNOS = [5, 28, 13, 27, 122]
WHOW = ["path", "handle"]
BADHOW = ["missing", "folder", "readonly", "writeonly"]


def wf_file(rng, **kw):
    o = B.Opts(rng, **kw)
    if "items" not in kw:
        o.items = T.items(rng, free=0.03)
    return B.make_file(o)


def any_items(rng):
    r = rng.random()
    if r < 0.1:
        return []
    if r < 0.16:
        return T.items(rng, 1, 2, (255, 256, 300, 600))
    return T.items(rng, free=0.02)


BIG = (4089, 8184, 8192, 9000)
HUGE = (65519, 65536, 70001)

# -- damaged files -------------------------------------------------------------------------------

LENGTHS32 = [0, 1, 2, 7, 8, 9, 15, 16, 2**31 - 1, 2**31, 2**32 - 1]
LENGTHS64 = [0, 1, 8, 15, 16, 17, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 8]


def damage(rng, f, boxes, k=None):
    """One or a few things wrong. Returns bytes."""
    f = bytearray(f)
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if k is None else k):
        if not f:
            return bytes(f)
        r = rng.random()
        p, hl, ln, fcc, d = rng.choice(boxes)
        if p + 8 > len(f):
            continue
        if r < 0.28:
            v = rng.choice(LENGTHS32 + [ln - 1, ln + 1, ln + 8, ln - 8, hl, hl + 4, ln * 2, len(f), len(f) - p,
                                        len(f) - p + 1])
            if hl == 16 and rng.random() < 0.7 and p + 16 <= len(f):
                v = rng.choice(LENGTHS64 + [ln - 1, ln + 1, ln + 8, ln - 8, ln * 2])
                f[p + 8:p + 16] = B.be(v % 2**64, 8)
            else:
                f[p:p + 4] = B.be(v % 2**32, 4)
        elif r < 0.36:
            # becomes extended, the content read as the length
            f[p:p + 4] = B.be(1, 4)
            if rng.random() < 0.5 and p + 16 <= len(f):
                f[p + 8:p + 16] = B.be(rng.choice(LENGTHS64 + [ln]), 8)
        elif r < 0.46:
            f = f[:rng.randrange(len(f) + 1)]
        elif r < 0.6:
            q = p + hl + rng.choice([0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 12])
            if q < len(f):
                f[q] = rng.choice([0, 1, 2, 127, 128, 254, 255, rng.randrange(256)])
        elif r < 0.7:
            # a count or size field
            q = p + hl + rng.choice([0, 4, 8])
            if q + 4 <= len(f):
                f[q:q + 4] = B.be(rng.choice([0, 1, 2**16, 2**24, 2**28, 2**30, 2**31, 2**32 - 1]), 4)
        elif r < 0.78:
            q = rng.randrange(len(f))
            f[q] = rng.randrange(256)
        elif r < 0.86:
            # another code
            f[p + 4:p + 8] = rng.choice([b"moov", b"udta", b"meta", b"ilst", b"mdat", b"free", b"stco", b"co64",
                                         b"mvhd", b"trak", b"data", b"esds", b"ftyp", b"xxxx"])
        elif r < 0.93:
            # repeated
            q = min(p + ln, len(f))
            f[q:q] = f[p:q]
        else:
            q = min(p + ln, len(f))
            del f[p:q]
    return bytes(f)


def repeated(rng, o):
    """A file in which boxes that should occur once occur repeatedly (everything nests)."""
    tops = B.make_tree(o)
    alt = B.make_tree(B.Opts(rng, items=T.items(rng, 1, 2), ntrak=1))
    moov = next(t for t in tops if t.fcc == b"moov")
    m2 = next(t for t in alt if t.fcc == b"moov")

    def add(path):
        a, b = moov.find(path[:-1]), m2.find(path)
        if a is not None and b is not None:
            a.kids.insert(rng.randrange(len(a.kids) + 1), b)

    for path in rng.sample([[b"udta"], [b"udta", b"meta"], [b"udta", b"meta", b"ilst"],
                            [b"udta", b"meta", b"hdlr"], [b"mvhd"], [b"moov"]], rng.choice([1, 1, 2])):
        if path == [b"moov"]:
            tops.insert(rng.randrange(1, len(tops) + 1), m2)
        else:
            add(path)
    if rng.random() < 0.4:
        tr = moov.find([b"trak", b"mdia", b"minf", b"stbl"])
        if tr is not None:
            tr.kids.append(B.table(b"stco", [0, 5]))
    return B.serialize(tops)


def garbage(rng):
    n = rng.choice([0, 1, 3, 7, 8, 9, 15, 16, 17, 24, 40, 100, 300])
    f = bytearray(B.rb(rng, n))
    if rng.random() < 0.7:
        f[0:8] = B.be(rng.choice([8, 12, 16, 20, 1]), 4) + b"ftyp"
    for _ in range(rng.randrange(6)):
        f += B.be(rng.choice([0, 1, 7, 8, 9, 12, 16, 24, 40, 2**31, 2**32 - 1]), 4)
        f += rng.choice([b"moov", b"udta", b"meta", b"ilst", b"\xa9nam", b"data", b"trak", b"mdia", b"minf",
                         b"stbl", b"stsd", b"mp4a", b"esds", b"mvhd", b"----", b"mean", b"free"])
        if rng.random() < 0.4:
            f += B.rb(rng, rng.choice([4, 8, 16]))
    return bytes(f)


def bare(fcc, body, extra=0):
    return B.be(len(body) + 8 + extra, 4) + fcc + body


def declared(rng):
    """Few bytes that declare a lot: every length and count of the format, far beyond what is there."""
    ft = bare(b"ftyp", b"M4A ")
    big = rng.choice([2**20, 2**26, 2**28, 2**30, 2**31 - 9, 2**31, 2**32 - 200])
    v0 = b"\0" * 4
    what = rng.choice(["ftyp", "data", "mean", "name", "stco", "co64", "esds", "item", "ilst", "hdlr", "ext",
                       "dataext", "meanext", "mvhd", "chain"])
    wrap = lambda x, *cs: x if not cs else bare(cs[-1], wrap_in(x, cs[:-1]), big)

    def wrap_in(x, cs):
        for c in cs:
            x = bare(c, (v0 if c == b"meta" else (b"\0" * 8 if c == b"stsd" else b"")) + x, big)
        return x

    up = (b"\xa9nam", b"ilst", b"meta", b"udta", b"moov")
    if what == "ftyp":
        return B.be(big, 4) + b"ftypM4A "
    if what == "data":
        t = rng.choice([0, 1, 2, 13, 21])
        return ft + wrap_in(bare(b"data", B.be(t, 4) + v0 + b"xy", big), up)
    if what == "dataext":
        t = rng.choice([0, 1, 2, 13])
        x = B.be(1, 4) + b"data" + B.be(rng.choice([2**40, 2**62, 2**63 - 1, big]), 8) + B.be(t, 4) + v0
        return ft + wrap_in(x, up)
    if what in ("mean", "name"):
        return ft + wrap_in(bare(what.encode(), v0 + b"xy", big), (b"----",) + up[1:])
    if what == "meanext":
        x = B.be(1, 4) + b"mean" + B.be(rng.choice([2**40, 2**63 - 1, big]), 8) + v0
        return ft + wrap_in(x, (b"----",) + up[1:])
    if what in ("stco", "co64"):
        x = bare(what.encode(), v0 + B.be(rng.choice([2**20, 2**28, 2**29, 2**32 - 1]), 4), rng.choice([0, big]))
        return ft + wrap_in(x, (b"stbl", b"minf", b"mdia", b"trak", b"moov"))
    if what == "esds":
        d = bytes([3, 255, 255, 255, 127]) + b"\0\0\0" + bytes([4, 255, 255, 255, 127])
        x = bare(b"mp4a", b"\0" * 28 + bare(b"esds", v0 + d, big), big)
        return ft + wrap_in(x, (b"stsd", b"stbl", b"minf", b"mdia", b"trak", b"moov"))
    if what == "mvhd":
        v = rng.randrange(2)
        x = full_mvhd(v, rng.choice([0, 1, 2**32 - 1]), rng.choice([0, 1, 2**32 - 1, (2**64 - 1) if v else 5]))
        return ft + wrap_in(x, (b"moov",))
    if what == "chain":
        return ft + wrap_in(b"", up)
    if what == "item":
        return ft + wrap_in(b"", up[1:])
    if what == "ilst":
        return ft + wrap_in(b"", up[2:])
    if what == "hdlr":
        return ft + wrap_in(bare(b"hdlr", b"\0" * 9, big), up[2:])
    return ft + B.be(1, 4) + b"moov" + B.be(rng.choice(LENGTHS64), 8)


DEEP = {b"meta": 4, b"stsd": 8, b"mp4a": 28, b"esds": 4, b"data": 8, b"mean": 4, b"name": 4, b"hdlr": 4}


UPPER = [b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds"]
LOWER = [b"moov", b"udta", b"meta", b"ilst", b"----", b"data"]
# descriptors within each other, or boxes: which, and the last how many of them are repeated
DEEP_ALL = [("d", k, c) for k in (1, 2, 3) for c in ([3], [4], [5], [6], [4, 5], [3, 4])] + \
           [("b", p[:k], r) for p in (UPPER, LOWER) for k in range(1, len(p) + 1) for r in (1, 2, 0) if r <= k]


def deep(rng, what, n):
    """Boxes in boxes in boxes, or descriptors in descriptors: as many as there are bytes for."""
    ft = bare(b"ftyp", b"M4A ")
    if what[0] == "d":
        path = UPPER
        fixed = {3: b"\0\0\0", 4: b"\0" * 13, 5: b"\x12\x10", 6: b""}
        ds = [3, 4, 5][:what[1]] + what[2] * (n // len(what[2]))
        left, out = sum(5 + len(fixed[d]) for d in ds), []
        for d in ds:
            left -= 5 + len(fixed[d])
            k = left + len(fixed[d])
            out.append(bytes([d, 128 | k >> 21 & 127, 128 | k >> 14 & 127, 128 | k >> 7 & 127, k & 127]) + fixed[d])
        x = b"".join(out)
    else:
        path = [rng.choice([c, b"\xa9nam"]) if c == b"----" else rng.choice([c, c, b"mean", b"name"]) if c == b"data" else c
                for c in what[1]]
        again = path[-what[2]:] if what[2] else [rng.choice(UPPER + LOWER + [b"free", b"mdat"])]
        ext = rng.random() < 0.2
        extra = lambda c: DEEP.get(c, 0) if rng.random() < 0.9 else 0
        cs = [(c, e) for c, e in ((c, extra(c)) for c in again)] * (n // len(again))
        hl = 16 if ext else 8
        left, out = sum(hl + e for _, e in cs), []
        for c, e in cs:
            out.append((B.be(1, 4) + c + B.be(left, 8) if ext else B.be(left, 4) + c) + b"\0" * e)
            left -= hl + e
        x = b"".join(out)
    for c in reversed(path):
        x = bare(c, b"\0" * DEEP.get(c, 0) + x)
    return ft + x


def full_mvhd(v, scale, dur):
    w = 8 if v else 4
    return bare(b"mvhd", bytes([v, 0, 0, 0]) + b"\0" * 2 * w + B.be(scale, 4) + B.be(dur % 2**(8 * w), w))


# -- exactly one thing wrong ---------------------------------------------------------------------

def one_wrong(rng, **kw):
    """A well-formed file with one fault; what the fault has to be reported as is for the model to say."""
    its = kw.pop("items", None) or T.items(rng, 1, 4)
    if not any(i["id"]["k"] == "x" for i in its) and rng.random() < 0.4:
        its.append({"id": T.freeform("com.apple.iTunes", "ISRC"), "data": [T.value(rng)]})
    o = B.Opts(rng, **dict(dict(items=its, udta=True, meta=True, ilst=True, ntrak=rng.choice([1, 1, 2, 3]), audio=1.0,
                                tables=["32", "both", "64"], have_mvhd=True), **kw))
    f, boxes = B.make_file(o)
    of = lambda *c: [b for b in boxes if b[3] in c]
    nested = lambda c, d: [b for b in boxes if b[3] == c and b[4] == d]
    f = bytearray(f)
    kind = rng.choice(["noftyp", "ftypcode", "nomoov", "novalue", "noesds", "mvhdv", "metav", "stsdv", "esdsv",
                       "datav", "namev", "type", "utf8", "utf16", "nameutf8", "desc", "cut", "cut", "ftyputf8",
                       "short", "zero"])
    pick = lambda l: rng.choice(l) if l else None
    ver = rng.choice([1, 1, 2, 3, 127, 255])
    x = None

    def sub(b, off):
        return b[0] + b[1] + off

    mv = [b for b in nested(b"moov", 0)][:1]
    if kind == "noftyp":
        b = boxes[0]
        del f[b[0]:b[0] + b[2]]
        return bytes(f)
    if kind == "ftypcode":
        f[4:8] = rng.choice([b"free", b"moov", b"mdat", b"styp", b"FTYP", b"ftyq", b"\0\0\0\0", b"xtyp"])
        return bytes(f)
    if kind == "nomoov":
        b = mv[0]
        if rng.random() < 0.5:
            del f[b[0]:b[0] + b[2]]
        else:
            f[b[0] + 4:b[0] + 8] = rng.choice([b"free", b"moof", b"MOOV", b"uknw"])
        return bytes(f)
    # the boxes that are read
    udta = [b for b in nested(b"udta", 1)]
    inside = lambda b, a: a and a[0] <= b[0] < a[0] + a[2]
    ud = next((b for b in udta if inside(b, mv[0])), None)
    mt = next((b for b in nested(b"meta", 2) if inside(b, ud)), None)
    il = next((b for b in nested(b"ilst", 3) if inside(b, mt)), None)
    its_ = [b for b in boxes if b[4] == 4 and inside(b, il) and b[3] != b"free"]
    datas = [b for b in boxes if b[4] == 5 and b[3] == b"data" and inside(b, il)
             and not any(inside(b, z) and z[3] == b"free" for z in boxes if z[4] == 4 and inside(z, il))]
    names = [b for b in boxes if b[4] == 5 and b[3] in (b"mean", b"name") and inside(b, il)]
    es = [b for b in boxes if b[3] == b"esds" and b[4] == 7]
    if kind == "novalue":
        b = pick(its_)
        if b is None:
            return bytes(f)
        for d in datas:
            if inside(d, b):
                f[d[0] + 4:d[0] + 8] = rng.choice([b"free", b"uknw", b"DATA"])
    elif kind == "noesds":
        b = pick(es)
        f[b[0] + 4:b[0] + 8] = rng.choice([b"free", b"uknw", b"esdt", b"wave"])
    elif kind == "mvhdv":
        b = pick([b for b in nested(b"mvhd", 1) if inside(b, mv[0])])
        if b:
            f[sub(b, 0)] = rng.choice([2, 3, 127, 128, 255])
    elif kind == "metav":
        f[sub(mt, 0)] = ver
    elif kind == "stsdv":
        b = pick([b for b in nested(b"stsd", 5) if inside(b, mv[0])])
        if b:
            f[sub(b, 0)] = ver
    elif kind == "esdsv":
        f[sub(pick(es), 0)] = ver
    elif kind in ("datav", "type", "utf8", "utf16"):
        b = pick(datas)
        if b is None:
            return bytes(f)
        if kind == "datav":
            f[sub(b, 0)] = ver
        elif kind == "type":
            t = rng.choice([3, 4, 5, 11, 12, 15, 16, 20, 22, 23, 24, 26, 28, 29, 77, 255, 256, 257, 269, 2**16,
                            2**16 + 1, 2**24 - 1, 2**24 - 2])
            f[sub(b, 1):sub(b, 4)] = B.be(t, 3)
        else:
            bad = rng.choice([b"\xff", b"a\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80",
                              b"\xf5\x80\x80\x80"]) if kind == "utf8" else \
                rng.choice([b"\xd8\x00", b"\xdc\x00", b"\xd8\x3d\x00a", b"a", b"\0a\0", b"\xdc\x00\xd8\x00",
                            b"\0a\xd8\x3d"])
            n = {"utf8": 1, "utf16": 2}[kind]
            return replace_box(f, boxes, b, B.be(n, 4) + b"\0" * 4 + bad)
    elif kind == "namev":
        b = pick(names)
        if b is None:
            return bytes(f)
        f[sub(b, 0)] = ver
    elif kind == "nameutf8":
        b = pick(names)
        if b is None:
            return bytes(f)
        return replace_box(f, boxes, b, b"\0" * 4 + rng.choice([b"\xff", b"x\xc3", b"\xed\xb0\x80"]))
    elif kind == "ftyputf8":
        b = boxes[0]
        return replace_box(f, boxes, b, rng.choice([b"\xff\xff\xff\xff", b"M4A\xc3", b"\xe2\x82"]))
    elif kind == "desc":
        b = pick(es)
        f[sub(b, 4)] = rng.choice([0, 1, 2, 4, 5, 6, 255, 131])
    elif kind == "cut":
        n = rng.choice([rng.randrange(len(f)), rng.choice(boxes)[0], rng.choice(boxes)[0] + 3])
        if mv:
            # most cuts within the movie box
            if rng.random() < 0.7:
                n = mv[0][0] + rng.randrange(mv[0][2])
        f = f[:n]
    elif kind == "short":
        # a box too short for its fixed fields, everything around it fitting
        b = pick(datas + names)
        if b is None:
            return bytes(f)
        k = rng.randrange(8 if b[3] == b"data" else 4)
        return replace_box(f, boxes, b, bytes(f[sub(b, 0):sub(b, k)]))
    elif kind == "zero":
        # the time scale
        b = pick([b for b in nested(b"mvhd", 1) if inside(b, mv[0])])
        if b:
            q = sub(b, 12 if f[sub(b, 0)] == 0 else 20)
            f[q:q + 4] = b"\0" * 4
    return bytes(f)


def replace_box(f, boxes, b, body):
    """Another content for a box, with the lengths of the boxes around it adjusted."""
    f = bytearray(f)
    delta = len(body) - (b[2] - b[1])
    for a in boxes:
        if a[0] <= b[0] and b[0] + b[2] <= a[0] + a[2]:
            if a[1] == 8:
                f[a[0]:a[0] + 4] = B.be(a[2] + delta, 4)
            else:
                f[a[0] + 8:a[0] + 16] = B.be(a[2] + delta, 8)
    f[b[0] + b[1]:b[0] + b[2]] = body
    return bytes(f)


# -- one scenario per property -------------------------------------------------------------------

def history(rng, f0, n, logs=False, extra=None):
    """A file is tagged n times and read in between."""
    yield begin()
    yield disk(f0)
    for i in range(n):
        o = yield write(any_items(rng) if extra is None or i else extra, rng.choice(WHOW), log=logs)
        if o["st"] != "ok":
            return
        if rng.random() < 0.6:
            yield read(how=rng.choice(["path", "file", "handle", "cursor"]), keep=True)
            if rng.random() < 0.4:
                yield write(None, rng.choice(WHOW), me=True)


def sized(rng, i):
    """Every so often items around the sizes of buffers."""
    if i % 97 == 13:
        return T.items(rng, 1, 1, BIG)
    return None


CROWD = ["top", "mdat", "ilst", "item", "moov", "stbl", "udta", "trak", "meta"]


def large(prop, rng, i, crowd=None):
    """Files and tags that are larger than buffers and than 16-bit lengths."""
    kw, its = dict(messy=False, extp=rng.choice([0, 0, 1])), [any_items(rng)]
    k = i % 6
    if crowd:
        # hundreds of boxes at one level
        k = 6
        kw.update(crowd=crowd, udta=True, meta=True, ilst=True, items=T.items(rng, 1, 3), mdats_after=1, entries=[3])
        if crowd == "mdat":
            kw.update(mdats_before=rng.choice([0, 130]), mdats_after=150, sizes=[0, 1, 3])
        if crowd in ("stbl", "trak"):
            kw.update(ntrak=2, tables=["32", "64"])
    elif k == 0:
        its = [T.items(rng, 1, 1, HUGE), any_items(rng), T.items(rng, 1, 2, HUGE)]
        if rng.random() < 0.3:
            its[1] = its[1] + [{"id": dict(T.freeform("m", "n"), **{rng.choice(["mean", "name"]): T.text(rng, rng.choice(HUGE))}),
                                "data": [T.value(rng)]}]
        if rng.random() < 0.5:
            kw.update(items=T.items(rng, 1, 1, HUGE))
    elif k == 1:
        kw.update(sizes=HUGE, mdats_before=rng.choice([0, 1]), mdats_after=1, ntrak=2, tables=["32", "64"])
    elif k == 2:
        kw.update(filler=rng.choice(HUGE), mdats_after=1)
    elif k == 3:
        kw.update(entries=[1023, 1024, 2047, 2500], ntrak=2, tables=["32", "64"], mdats_after=rng.choice([0, 1]),
                  sizes=[30], mdats_before=1, dangling=0)
    elif k == 4:
        ids = [T.code(bytes([a, b]) + b"zz") for a in range(97, 97 + 26) for b in range(65, 75)]
        many = [{"id": x, "data": [T.value(rng) for _ in range(rng.choice([1, 1, 2]))]} for x in ids]
        one = [{"id": T.ident(rng), "data": [T.value(rng, (0, 1, 2)) for _ in range(300)]}]
        its = [rng.choice([many, one]), any_items(rng)]
        if rng.random() < 0.5:
            kw.update(items=rng.choice([many, one]))
    else:
        kw.update(ntrak=rng.choice([20, 33]), entries=[1, 2], mdats_after=1)
    if prop in ("C02", "C04") and i // 6 in (1, 2):
        # more of them than 16 or 8 bits count
        if k == 3:
            kw.update(entries=[66000], ntrak=1, tables=[("32", "64")[i // 6 - 1]], mdats_after=1)
        elif k == 5:
            kw.update(ntrak=300)
    if prop == "C17":
        kw.setdefault("items", rng.choice(its) or None)
        kw.setdefault("tables", ["32", "both", "64"] * 11)
        yield begin()
        yield read(one_wrong(rng, **kw), how=rng.choice(HOWS), one=True)
        return
    if prop == "C04" and k == 3:
        # offsets that can't be represented, in tables that don't fit any buffer
        kw.update(near=True, dangling=0.3, mdats_after=1)
    f, _ = wf_file(rng, **kw)
    yield begin()
    if prop in ("C04", "C15"):
        yield from faulty(prop, rng, f, its)
        return
    if prop == "C10":
        for x in its:
            yield dump(x, "vec")
            yield dump(x, "path")
        return
    if prop in ("C06", "C07", "C08"):
        yield read(f, "path")
        yield read(f, "cursor", at=rng.choice([0, 8190, 70000]), keep=True)
        if prop != "C07":
            return
    yield disk(f)
    for x in its:
        o = yield write(x, rng.choice(WHOW), log=prop == "C16")
        if o["st"] != "ok":
            return
        yield read(how=rng.choice(["path", "file", "handle"]), keep=True)
    yield write(None, "path", me=True, log=prop == "C16")


def faulty(prop, rng, f, its):
    """Failures of operations on large files."""
    err = lambda: rng.choice(ERRNOS)
    how, x = rng.choice(WHOW), rng.choice(its)
    yield disk(f)
    o = yield write(x, how)
    if o["st"] != "ok" or not o["counts"]:
        return
    n = dict(zip(CLASSES, o["counts"]))
    for k in spread(rng, n["read"], 6):
        yield disk(f)
        yield write(x, how, fault=fault("read", k, errno=err(), sticky=rng.random() < 0.5))
    if prop == "C04":
        return
    for k in spread(rng, n["write"], 10):
        yield disk(f)
        yield write(x, how, fault=fault("write", k, rng.choice(["err", "err", "zero"]), errno=err(),
                                        sticky=rng.random() < 0.5))
    for k in spread(rng, n["write"], 3):
        yield disk(f)
        yield write(x, how, fault=fault("write", k, "short", ln=rng.choice([1, 4095, 8191, 65535])))
    for c in ("read", "write"):
        yield disk(f)
        yield write(x, how, fault=fault(c, 0, "short", ln=rng.choice([1000, 4095, 8191, 8193])))
    yield disk(f)
    yield write(x, how, fault=fault("write", 0, "eintr"))
    yield disk(f)
    yield write(x, how)
    o = yield read(how="path")
    for k in spread(rng, o["counts"][0] if o["st"] == "ok" else 0, 5):
        yield read(how="path", fault=fault("read", k, errno=err(), sticky=rng.random() < 0.5))
    yield read(how="file", fault=fault("read", 0, "short", ln=rng.choice([1000, 4095, 8191])))
    o = yield dump(x, "wild")
    for k in spread(rng, o["counts"][1] if o["st"] == "ok" else 0, 6):
        yield dump(x, "wild", fault=fault("write", k, rng.choice(["err", "zero"]), errno=err()))
    yield dump(x, "path", fault=fault("write", 0, "short", ln=rng.choice([1000, 4095, 8191])))
    yield dump(x, "path", fault=fault("write", rng.choice([1, 2]), errno=err()))


def beyond(prop, rng, i):
    """Media data of gigabytes in front of the movie box (a sparse file)."""
    after = rng.choice([0, 1, 2])
    f, boxes = wf_file(rng, mdats_before=1, mdats_after=after, wide=True, messy=False, extp=rng.choice([1, 0, 0.5]), sizes=[30],
                       dangling=0, order="std", audio=0.5, ntrak=rng.choice([1, 2]),
                       tables=["64", "64"] if after else [rng.choice(["32", "64", "both"]) for _ in range(2)])
    m = next(b for b in boxes if b[3] == b"mdat")
    at = m[0] + m[2] if after == 0 else m[0] + m[1] + rng.randrange(m[2] - m[1] + 1)
    add = [[m[0] + 8, 8]]
    for b in boxes:
        if b[3] == b"co64" and any(p[3] == b"stbl" and p[4] == b[4] - 1 and p[0] < b[0] < p[0] + p[2] for p in boxes):
            for q in range(b[0] + b[1] + 8, b[0] + b[2], 8):
                if int.from_bytes(f[q:q + 8], "big") >= at:
                    add.append([q, 8])
    n = rng.choice([2**31 - rng.randrange(100), 2**31, 2**32 - rng.randrange(100), 2**32 - at, 2**32 + rng.randrange(10**6),
                    5 * 2**30])
    yield begin()
    o = yield sparse(f, at, n, add)
    if o["st"] != "ok":
        return
    yield read(how="path", keep=True)
    if prop in ("C06", "C08"):
        yield read(how="file")
        yield read(how="handle")
        return
    for _ in range(rng.choice([1, 2, 3])):
        o = yield write(any_items(rng), rng.choice(WHOW))
        if o["st"] != "ok":
            return
        yield read(how=rng.choice(["path", "file"]), keep=True)
    yield write(None, "path", me=True)


def behind(prop, rng, i):
    """Media data of gigabytes behind the movie box."""
    f, boxes = wf_file(rng, mdats_before=0, mdats_after=rng.choice([1, 2]), messy=False,
                       extp=rng.choice([1, 0.5]), sizes=[30], dangling=0, order="std", audio=0.5, ntrak=rng.choice([1, 2]),
                       tables=["64", "64"], wide=True)
    m = next(b for b in boxes if b[3] == b"mdat")
    at = m[0] + m[1] + rng.randrange(m[2] - m[1] + 1)
    add = [[m[0] + 8, 8]]
    for b in boxes:
        if b[3] == b"co64":
            for q in range(b[0] + b[1] + 8, b[0] + b[2], 8):
                if int.from_bytes(f[q:q + 8], "big") >= at:
                    add.append([q, 8])
    n = rng.choice([2**31 - rng.randrange(100), 2**32 - rng.randrange(100), 2**32 - at, 2**32 + rng.randrange(1000)])
    o = yield dict(begin(), squeeze=n)
    if o["st"] != "ok":
        return
    o = yield sparse(f, at, n, add)
    if o["st"] != "ok":
        return
    yield write(any_items(rng), rng.choice(WHOW))
    yield write(any_items(rng), rng.choice(WHOW))
    yield read(how="path")


def crashed(prop, rng, i):
    """What an interrupted write leaves behind is read and written."""
    yield begin()
    f, _ = wf_file(rng, mdats_after=rng.choice([0, 1, 2]))
    yield disk(f)
    big = rng.random() < 0.5
    o = yield write([{"id": T.code(b"covr"), "data": [T.value(rng, (9000, 20000), t=13)]}] if big else any_items(rng),
                    rng.choice(WHOW), log=True)
    ops = o.get("ops", [])
    if o["st"] != "ok" or not ops:
        return
    for k in spread(rng, len(ops), 4):
        g = bytearray(f)
        for j, x in enumerate(ops[:k]):
            if x["w"] < 0:
                g = g[:x["n"]] + bytes(max(0, x["n"] - len(g)))
            else:
                d = bytes(x["b"])
                if j == k - 1 and rng.random() < 0.5:
                    d = d[:rng.randrange(len(d) + 1)]
                g += bytes(max(0, x["w"] - len(g)))
                g[x["w"]:x["w"] + len(d)] = d
        yield disk(g)
        yield read(how=rng.choice(["path", "file", "handle"]))
        yield write(any_items(rng), rng.choice(WHOW), log=prop == "C16")
        yield read(how=rng.choice(["path", "cursor"]))


def offset(prop, rng, i):
    """The file begins in the middle of another one, where the handle is; or the handle is just anywhere."""
    yield begin()
    n = rng.choice([1, 7, 8, 16, 100, 4096, 8191, 70000])
    if i % 5 < 3:
        f, _ = wf_file(rng, mdats_after=rng.choice([0, 1, 2]))
    elif i % 5 == 3:
        f = bad_file(rng)
    else:
        f, _ = wf_file(rng, mdats_after=1, near=rng.random() < 0.5, dangling=0.3)
        n = 0
    pre = rng.randbytes(n)
    if n >= 8 and rng.random() < 0.5:
        # another file's beginning
        pre = B.be(n, 4) + rng.choice([b"free", b"ftyp", b"moov", b"mdat"]) + pre[8:]
    at = n or rng.choice([1, 4, 8, len(f) // 2, len(f) - 1, len(f), len(f) + 9, rng.randrange(1, len(f))])
    yield disk(pre + bytes(f))
    yield write(any_items(rng), "handle", log=prop == "C16", at=at)
    if rng.random() < 0.5:
        yield write(any_items(rng), "handle", log=prop == "C16", at=at)
    yield read(how="cursor", at=at)


def nested(prop, rng, i):
    """Deep nesting: the depth of recursion isn't for the input to choose."""
    what = DEEP_ALL[i % len(DEEP_ALL)]
    yield begin()
    for n in (20, 20000) if prop == "C08" else (20, 300, 8000):
        f = deep(rng, what, n)
        if prop == "C08":
            yield read(f, rng.choice(["cursor", "path"]))
        else:
            yield disk(f)
            yield write(any_items(rng), rng.choice(WHOW))


def giant(rng, items):
    """The items with one more value, of which zeros are left out, and how many: so many that the
    length of one of the boxes around it is close to where it no longer fits in 32 bits."""
    n = rng.choice([0, 1, 3])
    a, z, b = rng.choice([[], [1], [5, 6]]), [0] * n, rng.choice([[], [9], [7, 8, 9]])
    idn = rng.choice([T.code(b"covr"), T.code(b"test"), T.freeform("giant", "value")])
    v = {"t": rng.choice([0, 13, 14, 21, 27]), "v": a + z + b}
    out = [x for x in items if x["id"] != idn]
    it = {"id": idn, "data": [v]}
    if rng.random() < 0.3:
        it["data"].insert(rng.randrange(2), T.value(rng, t=rng.choice([0, 1, 13])))
    out.insert(rng.randrange(len(out) + 1), it)
    size = [16 + len(v["v"]), len(B.serialize([B.item_box(rng, it)])[0])]
    size.append(8 + sum(len(B.serialize([B.item_box(rng, x)])[0]) for x in out))
    size.append(size[-1] + 33 + 12)
    size.append(size[-1] + 8)
    size.append(size[-1] + 8)
    k = 2**32 - rng.choice(size) + rng.choice([-1, -1, 0, 1, -8, 7, 8, rng.randrange(-9, 10)])
    if rng.random() < 0.15:
        k = 2**32 + rng.choice([rng.randrange(1000), rng.randrange(2**32), 2**32])
    v["huge"] = [len(a), k]
    return out, k


def huge(prop, rng, i):
    """Values of gigabytes."""
    its, k = giant(rng, any_items(rng))
    o = yield dict(begin(), squeeze=k)
    if o["st"] != "ok":
        return
    if prop == "C10":
        yield dump(its, "vec")
        if i % 4 == 0:
            yield dump(its, "path")
        return
    refuse = prop in ("C03", "C04", "C09") and rng.random() < 0.6
    after = rng.choice([0, 1, 2])
    f, _ = wf_file(rng, mdats_before=rng.choice([0, 1]) if after else 1, mdats_after=after, extp=rng.choice([0, 0.5]) if refuse else 1,
                   dangling=0, ntrak=rng.choice([1, 2]),
                   tables=["64", "64"] if after and not refuse else [rng.choice(["32", "64", "both"]) for _ in range(2)])
    yield disk(f)
    o = yield write(its, rng.choice(WHOW))
    if prop == "C05" and o["st"] == "ok":
        yield write(its, rng.choice(WHOW))
    if prop in ("C01", "C06") and i % 3 == 0 and o["st"] == "ok":
        yield read(how=rng.choice(["path", "file"]))
    yield write(any_items(rng), rng.choice(WHOW))
    yield read(how="path")


def c01(rng, i):
    f, _ = wf_file(rng)
    yield from history(rng, f, rng.choice([1, 2, 3]), extra=sized(rng, i))


def c02(rng, i):
    r = rng.random()
    kw = dict(ntrak=rng.choice([1, 2, 2, 3]), dangling=rng.choice([0, 0, 0.3]))
    if r < 0.15:
        kw.update(big=True, mdats_after=rng.choice([1, 2]), messy=False, tables=["64", "both", "64"])
    elif r < 0.3:
        kw.update(near=True, dangling=0.4)
    else:
        kw.update(tables=[rng.choice(["32", "64", "both", "32"]) for _ in range(3)])
    f, _ = wf_file(rng, **kw)
    yield from history(rng, f, rng.choice([1, 2, 3]), extra=sized(rng, i))


def c03(rng, i):
    f, _ = wf_file(rng, messy=rng.random() < 0.7, udta=rng.random() < 0.7, cut=rng.random() < 0.1)
    yield from history(rng, f, rng.choice([1, 2]), extra=sized(rng, i))


def c04(rng, i):
    r = rng.random()
    yield begin()
    if r < 0.25:
        # offsets that cannot be represented, in any of the tracks
        f, _ = wf_file(rng, near=True, dangling=0.3, ntrak=rng.choice([1, 2, 3]), mdats_after=1,
                       tables=[rng.choice(["32", "both", "64"]) for _ in range(3)])
        yield disk(f)
        for _ in range(2):
            covr = T.code(b"covr")
            yield write([x for x in any_items(rng) if x["id"] != covr]
                        + [{"id": covr, "data": [T.value(rng, (250, 1200), t=13)]}], rng.choice(WHOW))
    elif r < 0.45:
        # a table of a later track is damaged
        f, boxes = wf_file(rng, ntrak=rng.choice([2, 3]), order="std", mdats_after=1,
                           tables=[rng.choice(["32", "64", "both"]) for _ in range(3)])
        tabs = [b for b in boxes if b[3] in (b"stco", b"co64") and b[4] == 5]
        if tabs:
            b = tabs[-1] if rng.random() < 0.7 else rng.choice(tabs)
            f = bytearray(f)
            q = b[0] + b[1]
            k = rng.randrange(4)
            if k == 0:
                f[q] = rng.choice([1, 2, 255])
            elif k == 1:
                n = int.from_bytes(f[q + 4:q + 8], "big")
                f[q + 4:q + 8] = B.be(rng.choice([n + 1, n + 2, 2**29, 2**30, 2**32 - 1, 2**31]), 4)
            elif k == 2:
                f[b[0]:b[0] + 4] = B.be(rng.choice([8, 9, 12, 15]), 4)
            else:
                f = f[:q + rng.randrange(1, max(2, b[2] - b[1]))]
        yield disk(f)
        for _ in range(2):
            yield write(any_items(rng), rng.choice(WHOW))
    elif r < 0.7:
        f, boxes = wf_file(rng)
        f = damage(rng, f, boxes)
        yield disk(f)
        for _ in range(2):
            yield write(any_items(rng), rng.choice(WHOW))
    elif r < 0.8:
        yield disk(one_wrong(rng))
        yield write(any_items(rng), rng.choice(WHOW))
    elif r < 0.84:
        yield disk(rng.choice([garbage, declared])(rng))
        yield write(any_items(rng), rng.choice(WHOW))
        yield write(any_items(rng), rng.choice(BADHOW))
    elif r < 0.86:
        yield disk(wf_file(rng)[0])
        for w in BADHOW:
            yield write(any_items(rng), w)
    elif r < 0.9:
        # boxes, but no file type box at the beginning, or no movie box
        f, boxes = wf_file(rng)
        end = [b[0] + b[2] for b in boxes if b[4] == 0][0]
        first, rest = f[:end], f[end:]
        moov = [b for b in boxes if b[4] == 0 and b[3] == b"moov"][0]
        other = rng.choice([b"free", b"skip", b"moof", b"styp", b"Ftyp", b"\0\0\0\0", b"mdat"])
        k = rng.randrange(6)
        if k == 0:
            f = rest
        elif k == 1:
            pad = bytes(rng.randrange(9))
            f = B.be(8 + len(pad), 4) + other + pad + f
        elif k == 2:
            f = f[:4] + other + f[8:]
        elif k == 3:
            f = rest + first
        elif k == 4:
            f = f[:moov[0]] + f[moov[0] + moov[2]:]
        else:
            q = moov[0] + 4
            f = f[:q] + rng.choice([b"free", b"moof", b"Moov", b"udta"]) + f[q + 4:]
        yield disk(f)
        for _ in range(2):
            yield write(any_items(rng), rng.choice(WHOW))
    else:
        # reading fails, at every place
        f, _ = wf_file(rng, ntrak=rng.choice([1, 2]))
        its = any_items(rng)
        how = rng.choice(WHOW)
        yield disk(f)
        o = yield write(its, how)
        n = o["counts"][0] if o["counts"] else 0
        for k in spread(rng, n, 14):
            yield disk(f)
            yield write(its, how, fault=fault("read", k, errno=rng.choice(ERRNOS), sticky=rng.random() < 0.5))


def spread(rng, n, k):
    """Places 1..n, at most k of them, the first and the last included."""
    if n <= k:
        return list(range(1, n + 1))
    return sorted(set([1, 2, n, n - 1] + rng.sample(range(1, n + 1), max(0, k - 4))))[:max(k, 4)]


def c05(rng, i):
    f, _ = wf_file(rng, messy=rng.random() < 0.5)
    last = any_items(rng)
    yield begin()
    yield disk(f)
    yield write(last, rng.choice(WHOW))
    yield disk(f)
    for _ in range(rng.choice([1, 2, 3, 4])):
        yield write(any_items(rng), rng.choice(WHOW))
        if rng.random() < 0.4:
            yield read(how="path", keep=True)
            yield write(None, rng.choice(WHOW), me=True)
            if rng.random() < 0.5:
                yield write(None, rng.choice(WHOW), me=True)
    yield write(last, rng.choice(WHOW))
    yield write(last, rng.choice(WHOW))
    yield read(how="path")


HOWS = ["cursor", "path", "file", "handle", "wild", "buf"]


def c06(rng, i):
    its = any_items(rng)
    if i % 61 == 7:
        its = T.items(rng, 1, 2, BIG)
    f, _ = wf_file(rng, items=its, messy=rng.random() < 0.75, cut=rng.random() < 0.1, ilst=rng.random() < 0.95,
                   udta=rng.random() < 0.95, meta=rng.random() < 0.95)
    yield begin()
    for how in rng.sample(HOWS, 3):
        yield read(f, how=how)
    pre = rng.choice([b"\0", B.rb(rng, 7), B.rb(rng, 64), f[:50], b"\0\0\0\x10ftypM4A \0\0\0\0"])
    how = rng.choice(["cursor", "file", "handle", "wild", "buf"])
    yield read(pre + f, how=how, at=len(pre))
    # the same items in another layout
    g, _ = wf_file(rng, items=its)
    yield read(g, how=rng.choice(HOWS))
    # a dump, too
    o = yield dump(its)
    if o["st"] == "ok":
        yield read(o["bytes"], how=rng.choice(HOWS))


def c07(rng, i):
    f, boxes = wf_file(rng, ntrak=rng.choice([1, 1, 2, 3]), audio=rng.choice([1, 0.7, 0.4]), items=T.items(rng, 0, 2),
                       have_mvhd=rng.random() < 0.96, tables=[rng.choice(["32", "both"]) for _ in range(3)])
    yield begin()
    yield disk(f)
    yield read(how=rng.choice(["cursor", "path", "wild"]))
    yield write(any_items(rng), rng.choice(WHOW))
    yield read(how=rng.choice(["cursor", "path", "buf"]))
    # other movie headers in the same place
    for b in [b for b in boxes if b[3] == b"mvhd" and b[4] == 1][:1]:
        for _ in range(5):
            v = f[b[0] + b[1]]
            g = bytearray(f)
            q = b[0] + b[1] + (12 if v == 0 else 20)
            w = 4 if v == 0 else 8
            sc = rng.choice([1, 2, 3, 7, 600, 1000, 44100, 90000, 2**31, 2**32 - 1, rng.randrange(1, 2**32)])
            du = rng.choice([0, 1, sc, sc - 1, sc + 1, sc * 2 - 1, 2**32 - 1, 2**31, rng.randrange(2**32),
                             2**(8 * w) - 1, rng.randrange(2**(8 * w)), rng.randrange(2**(8 * w))]) % 2**(8 * w)
            g[q:q + 4 + w] = B.be(sc, 4) + B.be(du, w)
            yield read(g, how=rng.choice(["cursor", "wild"]))


def bad_file(rng):
    r = rng.random()
    if r < 0.5:
        f, boxes = wf_file(rng)
        return damage(rng, f, boxes)
    if r < 0.6:
        f, boxes = repeated(rng, B.Opts(rng, items=T.items(rng, 0, 3)))
        return damage(rng, f, boxes) if rng.random() < 0.5 else f
    if r < 0.75:
        return declared(rng)
    if r < 0.85:
        return garbage(rng)
    if r < 0.95:
        return one_wrong(rng)
    return wf_file(rng)[0]


def c08(rng, i):
    yield begin()
    for _ in range(6):
        f = bad_file(rng)
        how = rng.choice(HOWS)
        yield read(f, how=how)
    yield disk(f)
    yield read(how=rng.choice(["path", "file", "handle"]))
    f = bad_file(rng)
    pre = B.rb(rng, rng.choice([1, 8, 40]))
    yield read(pre + f, how=rng.choice(["cursor", "file", "wild"]), at=rng.choice([len(pre), 1, len(pre) + len(f),
                                                                                   len(pre) + len(f) + 9]))


def c09(rng, i):
    r = rng.random()
    yield begin()
    if r < 0.25:
        f, boxes = repeated(rng, B.Opts(rng, items=T.items(rng, 0, 3)))
        if rng.random() < 0.3:
            f = damage(rng, f, boxes, 1)
    elif r < 0.35:
        f, _ = wf_file(rng, cut=True, mdats_after=rng.choice([1, 2]))
    elif r < 0.7:
        # lengths around the item list
        f, boxes = wf_file(rng, udta=True, meta=rng.random() < 0.9, ilst=rng.random() < 0.9)
        f = bytearray(f)
        bs = [b for b in boxes if b[3] in (b"moov", b"udta", b"meta", b"ilst", b"hdlr", b"trak", b"mdia", b"minf",
                                           b"stbl", b"stco", b"co64", b"free") and b[0] + 8 <= len(f)]
        for _ in range(rng.choice([1, 1, 2])):
            b = rng.choice(bs)
            d = rng.choice([-8, -4, -1, 1, 2, 4, 8, 12, 100, 2**20, 2**31])
            if b[1] == 16:
                f[b[0] + 8:b[0] + 16] = B.be((b[2] + d) % 2**64, 8)
            else:
                f[b[0]:b[0] + 4] = B.be((b[2] + d) % 2**32, 4)
        f = bytes(f)
    else:
        f = bad_file(rng)
    yield disk(f)
    o = yield write(any_items(rng), rng.choice(WHOW))
    if o["st"] == "ok":
        yield read(how=rng.choice(["path", "cursor"]))
        o = yield write(any_items(rng), rng.choice(WHOW))
        yield read(how="cursor")


def c10(rng, i):
    its = T.items(rng, free=0.03) if i % 37 else T.items(rng, 1, 2, rng.choice([BIG, BIG, HUGE]) if i % 148 == 0 else BIG)
    yield begin()
    hows = ["vec", "path", "wild", "bufw"]
    yield dump(its, "vec")
    for how in rng.sample(hows, 2):
        yield dump(its, how)
    # over something that was there: longer, shorter
    yield dump(its, "path", over=B.rb(rng, rng.choice([1, 10, 3000])))
    yield dump(its, "wild", fault=fault("write", 0, rng.choice(["short", "eintr"]), ln=rng.choice([1, 3, 7])))
    yield begin()
    f, _ = wf_file(rng)
    yield disk(f)
    yield write(its, rng.choice(WHOW))
    o = yield dump(its, rng.choice(hows))
    if o["st"] == "ok":
        r = yield read(o["bytes"], how="cursor", keep=True)
        if r["st"] == "ok":
            yield dump(None, rng.choice(hows))


def c15(rng, i):
    """A failure of each operation in turn."""
    its = any_items(rng)
    what = rng.choice(["write", "write", "read", "dump"])
    f, _ = wf_file(rng, items=T.items(rng, 0, 3), ntrak=rng.choice([0, 1, 1, 2]), messy=rng.random() < 0.3)
    yield begin()
    errno = lambda: rng.choice(ERRNOS)
    if what == "write":
        how = rng.choice(WHOW)
        yield disk(f)
        o = yield write(its, how)
        if o["st"] != "ok":
            return
        for ci, c in enumerate(CLASSES):
            for k in spread(rng, o["counts"][ci], 12 if c != "write" else 40):
                yield disk(f)
                yield write(its, how, fault=fault(c, k, errno=errno(), sticky=rng.random() < 0.4))
            if c == "write":
                for k in spread(rng, o["counts"][ci], 6):
                    yield disk(f)
                    yield write(its, how, fault=fault(c, k, "zero", sticky=rng.random() < 0.7))
        for c in ("read", "write"):
            for ln in rng.sample([1, 2, 3, 5, 7, 11], 2):
                yield disk(f)
                yield write(its, how, fault=fault(c, 0, "short", ln=ln))
            yield disk(f)
            yield write(its, how, fault=fault(c, 0, "eintr"))
            k = o["counts"][0 if c == "read" else 1]
            for q in spread(rng, k, 5):
                yield disk(f)
                yield write(its, how, fault=fault(c, q, "short", ln=rng.choice([1, 2, 3])))
        yield disk(f)
        yield write(its, how, fault=fault("resize", 0, "eintr"))
        for w in BADHOW:
            yield write(its, w)
    elif what == "read":
        how = rng.choice(["path", "file", "handle", "wild"])
        g, _ = wf_file(rng, items=T.items(rng, 0, 5), udta=True, messy=rng.random() < 0.5)
        o = yield read(g, how=how)
        if o["st"] != "ok":
            return
        for ci, c in ((0, "read"), (2, "seek")):
            for k in spread(rng, o["counts"][ci], 30):
                yield read(g, how=how, fault=fault(c, k, errno=errno(), sticky=rng.random() < 0.4))
        for ln in (1, 2, 3, 7):
            yield read(g, how=how, fault=fault("read", 0, "short", ln=ln))
        yield read(g, how=how, fault=fault("read", 0, "eintr"))
        yield disk(f)
        for w in ("missing", "folder", "writeonly"):
            yield read(how=w)
    else:
        how = rng.choice(["path", "wild"])
        o = yield dump(its, how)
        if o["st"] != "ok":
            return
        for k in spread(rng, o["counts"][1], 40):
            yield dump(its, how, fault=fault("write", k, errno=errno(), sticky=rng.random() < 0.4))
            yield dump(its, how, fault=fault("write", k, "zero", sticky=rng.random() < 0.7))
        for ln in (1, 2, 3, 7):
            yield dump(its, how, fault=fault("write", 0, "short", ln=ln))
        yield dump(its, how, fault=fault("write", 0, "eintr"))
        for w in ("missing", "folder"):
            yield dump(its, w)


def c16(rng, i):
    f, boxes = wf_file(rng, mdats_before=rng.choice([1, 1, 2, 0]), dangling=rng.choice([0, 0.2]))
    its = any_items(rng)
    how = rng.choice(WHOW)
    yield begin()
    yield disk(f)
    o = yield write(its, how, log=True)
    for _ in range(rng.randrange(2)):
        o = yield write(any_items(rng), how, log=True)
    if rng.random() < 0.5 and o["st"] == "ok":
        yield disk(f)
        o = yield write(its, how, log=True)
        for k in spread(rng, o["counts"][1], 8):
            yield disk(f)
            yield write(its, how, log=True, fault=fault("write", k, rng.choice(["err", "short"]), errno=28, ln=2,
                                                        sticky=True))
        for k in spread(rng, o["counts"][3], 3):
            yield disk(f)
            yield write(its, how, log=True, fault=fault("resize", k, errno=28))
        yield disk(f)
        yield write(its, how, log=True, fault=fault("seek", rng.randrange(1, 20), errno=5))
        yield disk(f)
        yield write(its, how, log=True, fault=fault("read", rng.randrange(1, 20), errno=5))
    if rng.random() < 0.3:
        g = damage(rng, f, boxes, 1)
        yield disk(g)
        yield write(its, how, log=True)


def c17(rng, i):
    yield begin()
    for _ in range(5):
        yield read(one_wrong(rng), how=rng.choice(HOWS), one=True)


FILE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
        "C09": c09, "C10": c10, "C15": c15, "C16": c16, "C17": c17}


# -- the layouts that were explored in the model -------------------------------------------------

A1 = {"id": T.code(b"\xa9nam"), "data": [{"t": 1, "v": [104, 105]}]}
MODEL_TAGS = [
    [],
    [A1],
    [{"id": T.code(b"covr"), "data": [{"t": 14, "v": [1, 2, 3, 4, 5, 6, 7]}, {"t": 13, "v": []}]},
     {"id": {"k": "x", "b": [], "mean": [109], "name": [110, 252]}, "data": [{"t": 2, "v": [8364]}]}],
    [{"id": {"k": "x", "b": [], "mean": [109], "name": [110, 252]},
      "data": [{"t": 0, "v": [0]}, {"t": 21, "v": [1, 2]}]},
     {"id": T.code(b"\xa9nam"), "data": [{"t": 1, "v": []}]}],
]


def model_layout(prop, lay, k):
    """The behaviours of MC_Write on one layout: one and two writes of the tags of the model."""
    rng = random.Random(k)
    f = lay["bytes"]
    yield begin()
    logs = prop == "C16"
    order = list(range(4))
    rng.shuffle(order)
    if prop in ("C05",):
        last = order[0]
        yield disk(f)
        yield write(MODEL_TAGS[last])
        for a in order[1:]:
            yield disk(f)
            yield write(MODEL_TAGS[a])
            yield write(MODEL_TAGS[last])
            yield write(MODEL_TAGS[last])
        return
    for a in order:
        yield disk(f)
        yield write(MODEL_TAGS[a], WHOW[k % 2], log=logs)
        if prop in ("C01", "C07"):
            yield read(how=HOWS[(k + a) % 4])
    yield write(MODEL_TAGS[order[0]], log=logs)
    if prop == "C16":
        yield disk(f)
        o = yield write(MODEL_TAGS[2], log=True)
        for q in spread(rng, o["counts"][1], 5):
            yield disk(f)
            yield write(MODEL_TAGS[2], log=True, fault=fault("write", q, "err", errno=28, sticky=True))


# -- single changes of layouts, from MC_Read -----------------------------------------------------

def apply(f, edit):
    f = list(f)
    for s in edit["es"]:
        f[s["p"]:s["p"] + s["r"]] = s["b"]
    return f


def edit_concerns(prop, e):
    """Whether a changed file is of interest for a property."""
    same, err = e["want"] == ["same"], bool(e["want"]) and e["want"] != ["same"]
    if prop == "C07":
        return same or e["k"] in ("scale", "duration", "version", "desclen", "tag")
    if prop == "C06":
        return same or e["k"] in ("twice", "order", "retype", "code")
    if prop == "C17":
        return err
    if prop in ("C08", "C09", "C04"):
        return True
    return same                          # the writing ones


NEW = [[{"id": {"k": "x", "b": [], "mean": [109], "name": [110, 252]}, "data": [{"t": 1, "v": [120, 121]}]}],
       [],
       [{"id": T.code(b"covr"), "data": [{"t": 13, "v": list(range(200))}]}, A1]]


def model_edits(prop, base, edits):
    rng = random.Random(len(edits))
    if prop in ("C06", "C07", "C08", "C17"):
        yield begin()
        for e in edits:
            f = apply(base, e)
            one = bool(e["want"]) and e["want"] != ["same"]
            how = "cursor" if prop == "C08" else rng.choice(HOWS)
            if how in ("path", "file", "handle", "cursor") or not one:
                yield read(f, how=how, one=one)
            else:
                yield read(f, how="wild", one=one)
            if prop == "C07" and rng.random() < 0.3:
                yield disk(f)
                o = yield write(NEW[0])
                if o["st"] == "ok":
                    yield read(how="cursor")
        return
    for e in edits:
        yield begin()
        yield disk(apply(base, e))
        k = rng.randrange(3)
        o = yield write(NEW[k], WHOW[rng.randrange(2)], log=prop == "C16")
        if prop in ("C01", "C09") and o["st"] == "ok":
            yield read(how="cursor")
        if prop in ("C05",) and o["st"] == "ok":
            yield write(NEW[(k + 1) % 3])
            yield write(NEW[k])
            yield write(NEW[k])


def model_sound(prop, files):
    rng = random.Random(len(files[0]))
    yield begin()
    for f in files:
        yield read(f, how=rng.choice(HOWS))
        if prop == "C06" and rng.random() < 0.3:
            yield read([9] * 5 + f, how=rng.choice(["cursor", "file", "handle", "wild", "buf"]), at=5)
        if prop == "C07" and rng.random() < 0.3:
            yield disk(f)
            yield write(NEW[2])
            yield read(how="cursor")


def script(cls, sched, skip=0):
    return {"class": cls, "n": skip, "mode": "script", "errno": 0, "len": 0, "sticky": False, "script": sched}


def model_dumped(items, files):
    """C10: a tag of the model is dumped every way, and written to every kind of file."""
    yield begin()
    for how in ("vec", "path", "wild", "bufw"):
        yield dump(items, how)
    for sched in ([{"k": "part", "n": 1}], [{"k": "eintr", "n": 0}, {"k": "part", "n": 5}, {"k": "eintr", "n": 0}]):
        for how in ("path", "wild"):
            for skip in (0, 1):
                yield dump(items, how, fault=script("write", sched, skip))
    for k, f in enumerate(files):
        yield begin()
        yield disk(f)
        yield write(items, WHOW[k % 2])
        o = yield dump(items, ("vec", "path", "wild", "bufw")[k % 4])
        if o["st"] == "ok":
            r = yield read(o["bytes"], how="cursor", keep=True)
            if r["st"] == "ok":
                yield dump(None, ("path", "vec")[k % 2])


def model_schedules(rng, scheds, items, files):
    """C15: schedules of the model in a dump, a write and a read, at the start and later."""
    its, f = rng.choice(items), rng.choice(files)
    yield begin()
    how = rng.choice(["path", "wild"])
    o = yield dump(its, how)
    if o["st"] == "ok":
        for s in scheds:
            n = o["counts"][1]
            yield dump(its, how, fault=script("write", s, rng.choice([0, 0, rng.randrange(n + 1)])))
    wh = rng.choice(WHOW)
    yield disk(f)
    o = yield write(its, wh)
    if o["st"] == "ok":
        g = o["post"]
        for s in scheds:
            yield disk(f)
            c = rng.choice(["write", "write", "read"])
            if c == "read":
                s = [x for x in s if x["k"] != "zero"]
                if not s:
                    continue
            yield write(its, wh, fault=script(c, s, rng.choice([0, rng.randrange(o["counts"][CLASSES.index(c)] + 1)])))
        rh = rng.choice(["path", "file", "handle", "wild"])
        o = yield read(g, how=rh)
        if o["st"] == "ok":
            for s in scheds:
                s = [x for x in s if x["k"] != "zero"]
                if s:
                    n = o["counts"][0]
                    yield read(g, how=rh, fault=script("read", s, rng.choice([0, rng.randrange(n + 1)])))
