"""Random values, identifiers and tags, in the encoding of the harness."""

CODES = [b"\xa9nam", b"\xa9ART", b"\xa9alb", b"aART", b"covr", b"trkn", b"disk", b"gnre", b"\xa9gen",
         b"cpil", b"tmpo", b"rtng", b"stik", b"\xa9lyr", b"desc", b"pgap", b"apID", b"\xa9day"]
ODD = [b"----", b"data", b"mean", b"name", b"ilst", b"\0\0\0\0", b"\xff\xff\xff\xff", b"moov", b"mdat",
       b"meta", b"abcd", b"\x00\x00\x00\x01"]
MEANS = ["com.apple.iTunes", "m", "org.x", "", "mé", "€"]
NAMES = ["ISRC", "n", "", "LABEL", "\U0001f600", "com.apple.iTunes"]
TYPES = [0, 1, 2, 13, 14, 21, 27]


def cps(s):
    return [ord(c) for c in s]


def code(b):
    return {"k": "f", "b": list(b), "mean": [], "name": []}


def freeform(m, n):
    return {"k": "x", "b": [], "mean": cps(m), "name": cps(n)}


def ident(rng):
    r = rng.random()
    if r < 0.6:
        return code(rng.choice(CODES))
    if r < 0.72:
        return code(rng.choice(ODD))
    if r < 0.78:
        return code(bytes(rng.choice([c for c in range(256)]) for _ in range(4)))
    if r < 0.79:
        return {"k": "x", "b": [], "mean": text(rng, rng.choice([1, 255, 256])), "name": text(rng, rng.choice([0, 255, 300]))}
    return freeform(rng.choice(MEANS), rng.choice(NAMES))


CHARS = [0x41, 0x7a, 0x20, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000,
         0x1f600, 0x10ffff, 0, 0x0a, 0x7f, 0x80]


def text(rng, n):
    out = []
    for _ in range(n):
        out.append(rng.choice(CHARS) if rng.random() < 0.5 else rng.randrange(0x20, 0x7f))
    return out


def value(rng, sizes=(0, 1, 2, 3, 5, 8, 12, 30), t=None):
    t = rng.choice(TYPES) if t is None else t
    n = rng.choice(sizes)
    if t in (1, 2):
        return {"t": t, "v": text(rng, n)}
    if n > 400:
        return {"t": t, "v": [(i * 7 + i // 256) % 256 for i in range(n)]}
    return {"t": t, "v": [rng.randrange(256) for _ in range(n)]}


def items(rng, lo=0, hi=5, sizes=(0, 1, 2, 3, 5, 8, 12, 30), free=0.0):
    out, seen = [], set()
    for _ in range(rng.randint(lo, hi)):
        i = ident(rng)
        if free and rng.random() < free:
            i = code(b"free")
        key = repr(i)
        if key in seen or (i["k"] == "f" and bytes(i["b"]) == b"free" and not free):
            continue
        seen.add(key)
        out.append({"id": i, "data": [value(rng, sizes) for _ in range(rng.choice([1, 1, 1, 2, 3]))]})
    return out
