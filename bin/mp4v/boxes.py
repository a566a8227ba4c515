"""MPEG-4 files as trees of boxes, and how to make well-formed ones."""


class Node:
    """A box. body: bytes, or a function of the context that yields bytes of fixed length."""

    __slots__ = ("fcc", "ext", "pre", "kids", "body", "mdat")

    def __init__(self, fcc, body=b"", kids=None, pre=b"", ext=False, mdat=None):
        self.fcc, self.body, self.kids, self.pre = fcc, body, kids, pre
        self.ext, self.mdat = ext, mdat

    def find(self, path):
        n = self
        for c in path:
            n = next((k for k in n.kids or [] if k.fcc == c), None)
            if n is None:
                return None
        return n


class Ctx:
    def __init__(self):
        self.mdat = {}


def be(v, n):
    return int(v).to_bytes(n, "big")


def head(fcc, n, ext):
    if ext:
        return be(1, 4) + fcc + be(n + 16, 8)
    return be(n + 8, 4) + fcc


def emit(n, ctx, out, boxes, depth):
    start = len(out)
    hl = 16 if n.ext else 8
    out += b"\0" * hl
    rec = [start, hl, 0, n.fcc, depth]
    boxes.append(rec)
    out += n.pre
    if n.kids is not None:
        for k in n.kids:
            emit(k, ctx, out, boxes, depth + 1)
    else:
        if n.mdat is not None:
            ctx.mdat[n.mdat] = len(out)
        out += n.body(ctx) if callable(n.body) else n.body
    ln = len(out) - start
    rec[2] = ln
    out[start:start + hl] = head(n.fcc, ln - hl, n.ext)


def serialize(tops):
    """Bytes and the boxes in them, [pos, head length, length, code, depth] in document order."""
    ctx = Ctx()
    for _ in range(2):
        out, boxes = bytearray(), []
        for n in tops:
            emit(n, ctx, out, boxes, 0)
    return bytes(out), boxes


# -- parts ---------------------------------------------------------------------------------------

def full(fcc, body, version=0, flags=0, ext=False):
    return Node(fcc, be(version, 1) + be(flags, 3) + body, ext=ext)


def desc(tag, body, style):
    """A descriptor; style is the number of length bytes."""
    n = len(body)
    need = 1
    while n >> (7 * need):
        need += 1
    k = max(style, need)
    ln = bytes(((n >> (7 * (k - 1 - i))) & 127) | (128 if i < k - 1 else 0) for i in range(k))
    return bytes([tag]) + ln + body


def esds(rng, sr=None, ch=None, maxb=None, avgb=None):
    st = rng.choice([1, 1, 4, 2, 3])
    sr = rng.randrange(16) if sr is None else sr
    ch = rng.randrange(16) if ch is None else ch
    r32 = lambda: rng.choice([0, 1, 128000, 256000, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32)])
    maxb = r32() if maxb is None else maxb
    avgb = r32() if avgb is None else avgb
    aot = rng.choice([2, 5, 29, 1])
    asc = be((aot << 11) | (sr << 7) | (ch << 3) | rng.randrange(8), 2) + rb(rng, rng.choice([0, 0, 3]))
    dsi = desc(5, asc, st)
    other = desc(rng.choice([6, 7, 19]), rb(rng, rng.randrange(4)), rng.choice([1, 4]))
    body = bytes([64, 21]) + rb(rng, 3) + be(maxb, 4) + be(avgb, 4)
    body += rng.choice([dsi, dsi, other + dsi, dsi + other, b"" if rng.random() < 0.2 else dsi])
    dcd = desc(4, body, st)
    sl = desc(6, b"\x02", rng.choice([1, 4]))
    inner = be(rng.randrange(65536), 2) + b"\0"
    inner += rng.choice([dcd + sl, dcd, sl + dcd, dcd + sl])
    return desc(3, inner, st)


def rb(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def mp4a(rng, ext=False, **kw):
    e = full(b"esds", esds(rng, **kw), flags=rng.choice([0, 0, 7]))
    tail = [unknown(rng, (b"esds", b"mp4a"))] if rng.random() < 0.2 else []
    return Node(b"mp4a", kids=[e] + tail, pre=rb(rng, 28), ext=ext)


def table(fcc, entries, ext=False):
    """entries: ("m", k, d) for the byte at distance d in media data k, or an integer."""
    w = 4 if fcc == b"stco" else 8

    def body(ctx):
        o = bytearray(be(0, 4) + be(len(entries), 4))
        for e in entries:
            v = e if isinstance(e, int) else ctx.mdat.get(e[1], 0) + e[2]
            o += be(v % (1 << (8 * w)), w)
        return bytes(o)

    return Node(fcc, body, ext=ext)


def mvhd(rng, version=None, dur=None, scale=None, ext=False):
    version = rng.randrange(2) if version is None else version
    w = 4 if version == 0 else 8
    if dur is None:
        dur = rng.choice([0, 1, 999, 2**31, 2**32 - 1, rng.randrange(2**32), rng.randrange(10**7)]
                         + ([2**32, 2**63, 2**64 - 1, rng.randrange(2**64)] if w == 8 else []))
    if scale is None:
        scale = rng.choice([1, 2, 3, 600, 1000, 44100, 48000, 90000, 2**31, 2**32 - 1,
                            rng.randrange(1, 2**32), rng.randrange(1, 10**6)])
    if version == 1:
        # seconds are 64 bits wide
        pass
    return full(b"mvhd", rb(rng, 2 * w) + be(scale, 4) + be(dur, w)
                + rb(rng, rng.choice([0, 4, 80])), version=version, ext=ext)


def free(rng, fcc=b"free"):
    return Node(fcc, b"\0" * rng.choice([0, 0, 1, 4, 9, 40]), ext=rng.random() < 0.12)


UNKNOWN = [b"uknw", b"uuid", b"iods", b"\xa9xyz", b"skip", b"wide", b"chpl", b"ID32", b"\xa9nam",
           b"data", b"mdat", b"moov", b"ilst", b"meta", b"stco", b"co64", b"mvhd", b"ftyp",
           b"udta", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds", b"hdlr", b"mean", b"name"]


def decoy(rng):
    """A box as it is read elsewhere; where it is put it means nothing."""
    def item():
        return Node(rng.choice([b"\xa9nam", b"\xa9alb", b"covr", b"tmpo"]),
                    kids=[Node(b"data", be(rng.choice([1, 0, 21]), 4) + be(0, 4) + rb(rng, 4))])

    def ilst():
        return Node(b"ilst", kids=[item() for _ in range(rng.randrange(3))])

    def meta():
        return Node(b"meta", kids=shuffled(rng, [full(b"hdlr", b"\0" * 4 + b"mdirappl" + b"\0" * 9), ilst()]),
                    pre=be(0, 4))

    def tab():
        n = rng.randrange(1, 4)
        return Node(b"stco", be(0, 4) + be(n, 4) + b"".join(be(rng.randrange(200), 4) for _ in range(n)))

    def stsd():
        return Node(b"stsd", kids=[mp4a(rng)], pre=be(0, 4) + be(1, 4))

    def stbl():
        return Node(b"stbl", kids=rng.choice([[tab()], [stsd()], [stsd(), tab()]]))

    def minf():
        return Node(b"minf", kids=[stbl()])

    def mdia():
        return Node(b"mdia", kids=[minf()])

    def trak():
        return Node(b"trak", kids=[mdia()])

    def udta():
        return Node(b"udta", kids=[meta()])

    def moov():
        return Node(b"moov", kids=rng.choice([[mvhd(rng)], [trak()], [udta()], [mvhd(rng), trak(), udta()]]))

    return rng.choice([item, ilst, meta, tab, stsd, stbl, minf, mdia, trak, udta, moov,
                       lambda: mvhd(rng), lambda: mp4a(rng), lambda: full(b"esds", esds(rng)),
                       lambda: Node(b"ftyp", b"decoy   "),
                       lambda: Node(b"free", kids=[udta()]),
                       lambda: Node(b"mdat", kids=[moov()]),
                       lambda: full(b"hdlr", b"\0" * 4 + b"mdirappl" + b"\0" * 9)])()


def unknown(rng, avoid=()):
    ext = rng.random() < 0.2
    if rng.random() < 0.4:
        for _ in range(8):
            d = decoy(rng)
            if d.fcc not in avoid:
                # opaque: what is in it are no boxes of the file
                return Node(d.fcc, serialize([d])[0][8:], ext=ext)
    c = rng.choice([u for u in UNKNOWN if u not in avoid])
    return Node(c, rb(rng, rng.choice([0, 1, 3, 8, 20])), ext=ext)


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def sprinkle(rng, kids, p, avoid, pad=True):
    """Padding and unknown boxes in between."""
    out = []
    for k in kids + [None]:
        while rng.random() < p:
            if pad and rng.random() < 0.6:
                out.append(free(rng))
            else:
                out.append(unknown(rng, avoid))
        if k is not None:
            out.append(k)
    return out


# -- metadata ------------------------------------------------------------------------------------

def utf8(t):
    return "".join(map(chr, t)).encode("utf-8", "surrogatepass")


def utf16(t):
    return "".join(map(chr, t)).encode("utf-16-be", "surrogatepass")


def value_bytes(v):
    if v["t"] == 1:
        return utf8(v["v"])
    if v["t"] == 2:
        return utf16(v["v"])
    return bytes(v["v"])


def data_box(rng, v, messy=False):
    loc = be(rng.choice([0, 1, 0x0409, 2**32 - 1]), 4) if messy else b"\0" * 4
    return Node(b"data", be(v["t"], 4) + loc + value_bytes(v), ext=messy and rng.random() < 0.15)


def text_box(fcc, t, messy=False, rng=None):
    fl = rng.randrange(2**24) if messy and rng.random() < 0.3 else 0
    return Node(fcc, be(fl, 4) + utf8(t), ext=messy and rng.random() < 0.1)


def item_box(rng, it, messy=False):
    """The box(es) of an item."""
    idn = it["id"]
    ds = [data_box(rng, v, messy) for v in it["data"]]
    ext = messy and rng.random() < 0.15
    if idn["k"] == "f":
        kids, fcc = ds, bytes(idn["b"])
    else:
        mean = text_box(b"mean", idn["mean"], messy, rng)
        name = text_box(b"name", idn["name"], messy, rng)
        kids, fcc = [mean, name] + ds, b"----"
        if messy and rng.random() < 0.4:
            rest = shuffled(rng, [mean, name] + [None] * len(ds))
            q = list(ds)
            kids = [q.pop(0) if k is None else k for k in rest]
    if messy:
        kids = sprinkle(rng, kids, rng.choice([0.05, 0.25]), (b"data", b"mean", b"name"))
    return Node(fcc, kids=kids, ext=ext)


def ilst_kids(rng, items, messy):
    """messy: items split into several boxes (merged when read), padding in between."""
    boxes = []
    if messy and rng.random() < 0.4 and items:
        first, later = [], []
        for it in items:
            if len(it["data"]) > 1 and rng.random() < 0.7:
                k = rng.randrange(1, len(it["data"]))
                first.append(dict(it, data=it["data"][:k]))
                later.append(dict(it, data=it["data"][k:]))
            else:
                first.append(it)
        boxes = [item_box(rng, it, messy) for it in first + shuffled(rng, later)]
    else:
        boxes = [item_box(rng, it, messy) for it in items]
    if messy:
        out = []
        for b in boxes + [None]:
            while rng.random() < 0.12:
                out.append(free(rng))
            if b is not None:
                out.append(b)
        boxes = out
    return boxes


def hdlr(rng, std=True):
    if std:
        return full(b"hdlr", b"\0" * 4 + b"mdirappl" + b"\0" * 9)
    return full(b"hdlr", b"\0" * 4 + rng.choice([b"mdir", b"mdta", b"ID32"]) + rb(rng, 12) + b"x\0")


MDAT_SIZES = [0, 1, 2, 5, 8, 16, 30]


class Opts:
    """What a generated file is like; every choice that isn't fixed is made at random."""

    def __init__(self, rng, **kw):
        self.rng = rng
        p = rng.random
        self.messy = p() < 0.5           # padding and unknown boxes anywhere
        self.extp = rng.choice([0, 0, 0.15, 1])
        self.ntrak = rng.choice([0, 1, 1, 2, 2, 3])
        self.mdats_before = rng.choice([0, 0, 1, 1, 2])
        self.mdats_after = rng.choice([0, 1, 1, 2])
        self.have_mvhd = p() < 0.95
        self.udta = p() < 0.85
        self.meta = p() < 0.85
        self.ilst = p() < 0.85
        self.hdlr = rng.choice(["before", "before", "before", "after", "none"])
        self.order = rng.choice(["std", "std", "shuffle"])   # of the boxes in moov
        self.pad_after = rng.choice([0, 0, 0, 30])           # padding next to the item list
        self.messy_items = self.messy
        self.big = False                 # media data whose end lies beyond the file, 64-bit offsets
        self.cut = False                 # last media data cut off
        self.items = []
        self.audio = 0.6
        self.brand = rng.choice([b"M4A ", b"isom", b"M4A \0\0\x02\0isomiso2", b"", b"mp42", "mé".encode()])
        self.dangling = 0.15
        self.near = False                # dangling 32-bit offsets close to 2^32
        self.tables = None
        self.sizes = MDAT_SIZES
        self.entries = [0, 1, 2, 3, 3, 5]
        self.wide = False                # the first media data box has an extended header
        self.crowd = None                # the level at which there are hundreds of boxes
        self.filler = 0                  # bytes of unknown boxes around the movie box
        for k, v in kw.items():
            setattr(self, k, v)


def make_tree(o):
    rng = o.rng
    E = lambda: rng.random() < o.extp
    nm = o.mdats_before + o.mdats_after
    mdats = []
    for k in range(nm):
        n = rng.choice(o.sizes)
        mdats.append(Node(b"mdat", rb(rng, n), ext=E() or (o.big and k == nm - 1) or (o.wide and k == 0), mdat=k))
    lens = [len(m.body) for m in mdats]
    unk = (b"moov", b"mdat", b"ftyp")

    def crowd(level, kids, avoid):
        """Hundreds of boxes at one level."""
        if o.crowd != level:
            return kids
        kids = [kids[:k] + [None] + kids[k:] for k in [rng.randrange(len(kids) + 1)]][0]
        n = rng.choice([130, 260, 300])
        out = []
        for k in kids:
            out += [k] if k else [free(rng) if avoid is None or rng.random() < 0.5 else
                                  Node(rng.choice([u for u in UNKNOWN if u not in avoid]), rb(rng, rng.choice([0, 0, 1, 3])))
                                  for _ in range(n)]
        return out

    def entries(wide):
        es = []
        for _ in range(rng.choice(o.entries)):
            if mdats and rng.random() >= o.dangling:
                k = rng.randrange(nm)
                d = rng.randrange(lens[k]) if lens[k] else 0
                if o.big and wide and k == nm - 1 and rng.random() < 0.7:
                    d = rng.choice([2**32, 2**32 + 7, 2**40 + 3, 2**31, 2**33 + rng.randrange(2**31)])
                es.append(("m", k, d))
            elif o.near:
                es.append(2**(32 if not wide else rng.choice([63, 64])) - 1 - rng.choice([0, 1, 7, 64, 200, 1000]))
            else:
                es.append(rng.choice([0, 1, 7, 10, 2**16, 2**24, 2**30, rng.randrange(2**30)]
                                     + ([2**32, 2**62] if wide else [])))
        return es

    def trak(i):
        kind = (o.tables[i] if o.tables else
                rng.choice(["32", "32", "64", "both", "empty", "none", "notable"]))
        skids = []
        if rng.random() < o.audio:
            skids.append(full(b"stsd", b"", 0))
            skids[-1] = Node(b"stsd", kids=[mp4a(rng, E())], pre=be(0, 4) + be(1, 4), ext=E())
            if rng.random() < 0.15:
                skids[-1].kids = shuffled(rng, skids[-1].kids + [Node(b"text", rb(rng, 9))])
            if o.messy:
                skids[-1].kids = sprinkle(rng, skids[-1].kids, 0.08, (b"mp4a",))
        elif rng.random() < 0.5:
            skids.append(Node(b"stsd", kids=[Node(b"text", rb(rng, 9))] if rng.random() < 0.7 else [],
                              pre=be(0, 4) + be(1, 4)))
        if rng.random() < 0.3:
            skids.append(Node(b"stts", be(0, 4) + be(0, 4)))
        if kind in ("32", "both"):
            skids.append(table(b"stco", entries(False), E()))
        if kind in ("64", "both"):
            skids.append(table(b"co64", entries(True), E()))
        if kind == "empty":
            skids.append(table(rng.choice([b"stco", b"co64"]), [], E()))
        if rng.random() < 0.4:
            skids = shuffled(rng, skids)
        avoid = (b"stco", b"co64", b"stsd")
        if o.messy:
            skids = sprinkle(rng, skids, 0.1, avoid)
        skids = crowd("stbl", skids, avoid)
        if kind == "none":
            kids = [Node(b"tkhd", rb(rng, 6))]
            if rng.random() < 0.5:
                kids.append(Node(b"mdia", kids=[Node(b"mdhd", rb(rng, 4))], ext=E()))
            return Node(b"trak", kids=kids, ext=E())
        stbl = Node(b"stbl", kids=skids, ext=E())
        mk = [Node(b"smhd", rb(rng, 4))] if rng.random() < 0.3 else []
        mk.append(stbl)
        if rng.random() < 0.2:
            mk = shuffled(rng, mk)
        minf = Node(b"minf", kids=sprinkle(rng, mk, 0.08 if o.messy else 0, (b"stbl",)), ext=E())
        dk = ([Node(b"mdhd", rb(rng, 8))] if rng.random() < 0.4 else []) + [minf]
        mdia = Node(b"mdia", kids=sprinkle(rng, dk, 0.08 if o.messy else 0, (b"minf",)), ext=E())
        tk = ([Node(b"tkhd", rb(rng, 8))] if rng.random() < 0.5 else []) + [mdia]
        if rng.random() < 0.2:
            tk = shuffled(rng, tk)
        tk = crowd("trak", tk, (b"mdia",))
        return Node(b"trak", kids=sprinkle(rng, tk, 0.08 if o.messy else 0, (b"mdia",)), ext=E())

    kids = []
    if o.have_mvhd:
        kids.append(mvhd(rng, ext=E()))
    kids += [trak(i) for i in range(o.ntrak)]
    if o.udta:
        uk = []
        if o.meta:
            mk = []
            if o.ilst:
                il = Node(b"ilst", kids=crowd("ilst", ilst_kids(rng, o.items, o.messy_items), None), ext=E())
                if o.crowd == "item" and il.kids and il.kids[0].kids is not None:
                    il.kids[0].kids = crowd("item", il.kids[0].kids, (b"data", b"mean", b"name"))
                mk.append(il)
                if o.pad_after:
                    mk.append(Node(b"free", b"\0" * rng.randrange(o.pad_after)))
            if o.hdlr == "before":
                mk.insert(0, hdlr(rng, rng.random() < 0.7))
            elif o.hdlr == "after":
                mk.append(hdlr(rng, rng.random() < 0.7))
            mk = sprinkle(rng, mk, 0.15 if o.messy else 0, (b"ilst", b"hdlr"))
            mk = crowd("meta", mk, (b"ilst", b"hdlr"))
            uk.append(Node(b"meta", kids=mk, pre=be(rng.choice([0, 0, 1, 2**24 - 1]), 4), ext=E()))
        uk = crowd("udta", sprinkle(rng, uk, 0.2 if o.messy else 0, (b"meta",)), (b"meta",))
        kids.append(Node(b"udta", kids=uk, ext=E()))
    if o.order == "shuffle":
        kids = shuffled(rng, kids)
    if o.messy:
        kids = sprinkle(rng, kids, 0.15, (b"mvhd", b"trak", b"udta"))
    moov = Node(b"moov", kids=crowd("moov", kids, (b"mvhd", b"trak", b"udta")), ext=E())
    fill = [Node(b"uknw", bytes(range(256)) * (o.filler // 256) + rb(rng, 3))] if o.filler else []
    tops = mdats[:o.mdats_before] + (fill if rng.random() < 0.5 else []) + [moov] + fill + mdats[o.mdats_before:]
    if o.messy:
        tops = sprinkle(rng, tops, 0.15, unk)
    tops = crowd("top", tops, unk)
    ftyp = Node(b"ftyp", o.brand, ext=E() and rng.random() < 0.5)
    return [ftyp] + tops


def make_file(o):
    tops = make_tree(o)
    f, boxes = serialize(tops)
    last = boxes[-1]
    if (o.big or o.cut) and last[3] == b"mdat" and last[4] == 0:
        f = bytearray(f)
        if o.big:
            assert last[1] == 16
            f[last[0] + 8:last[0] + 16] = be(last[2] + (1 << 41), 8)
        elif last[2] > last[1]:
            # longer than what is there
            add = o.rng.choice([1, 5, 1000])
            if last[1] == 8:
                f[last[0]:last[0] + 4] = be(last[2] + add, 4)
            else:
                f[last[0] + 8:last[0] + 16] = be(last[2] + add, 8)
        f = bytes(f)
    return f, boxes
