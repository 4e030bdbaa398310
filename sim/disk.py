"""Simulated storage between the program that wrote a link and the parser: faults on the stored bytes."""
from sim import model as M

SECTORS = [512, 512, 4096, 64, 16]
TEXTS = [x.encode(c) for x in ("\u00c1", "\u010d\u017e", "\u0159e\u017e", "\u20ac", "\u65e5\u672c", "\U0001f600", "\ufffd", "\u00c1b\u00ed\u010d")
         for c in ("utf-8", "utf-8", "utf-16-le", "cp932" if x[0] == "\u65e5" else "utf-8", "utf-16")] + \
    [b"\xff\xfe", b"\xef\xbb\xbf", b"\x81\x8d\x8f\x90\x9d", b"\x81", b"\x9d", b"\xd8", b"\x00\xd8\x00\xd8", b"\x00\xdc", b"\0", b"\0\0",
     b"\r\n", b"\x1a", b"\x1b[31m", b"\x85", b"\xa0", b"\xe2\x80\xa8", b"\x7f", b"\x80", b"\xc3", b"\xf0\x9f\x98"]
HOSTILE = [0, 1, 2, 3, 4, 5, 7, 8, 0x14, 0x1C, 0x24, 0x4C, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF,
           0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]


def payload(p, n=None):
    """Bytes of a JSON payload: hex string, or {"n":, "pat":}."""
    return bytes.fromhex(p) if isinstance(p, str) else M.pattern(p["n"], p["pat"])


def apply(data, faults):
    """The bytes a reader meets after `faults` (list of [kind, ...]) have hit the stored `data`."""
    b = bytearray(data)
    for f in faults:
        k, n = f[0], len(b)
        if k == "cut":
            del b[f[1]:]
        elif k == "flip":
            if f[1] < n:
                b[f[1]] ^= 1 << f[2]
        elif k == "set":
            if f[1] < n:
                b[f[1]] = f[2]
        elif k == "le":  # a little endian number overwritten
            raw = (f[3] & ((1 << 8 * f[2]) - 1)).to_bytes(f[2], "little")
            if f[1] < n:
                b[f[1]:f[1] + f[2]] = raw[:n - f[1]]
        elif k == "zero":  # lost sector
            e = min(f[2], n)
            if f[1] < e:
                b[f[1]:e] = bytes(e - f[1])
        elif k == "stale":  # old content shows through
            e = min(f[2], n)
            if f[1] < e:
                b[f[1]:e] = M.pattern(e - f[1], f[3])
        elif k == "text":  # stray text, written in an encoding of its own
            raw = bytes.fromhex(f[2])
            if f[1] < n:
                b[f[1]:f[1] + len(raw)] = raw[:n - f[1]]
        elif k == "swap":  # two sectors exchanged
            a, c, s = f[1], f[2], f[3]
            if a + s <= c and c + s <= n:
                b[a:a + s], b[c:c + s] = b[c:c + s], b[a:a + s]
        elif k == "dup":  # misdirected write: a sector lands on another one
            a, c, s = f[1], f[2], f[3]
            if a + s <= n and c + s <= n:
                b[c:c + s] = b[a:a + s]
        elif k == "insert":
            b[f[1]:f[1]] = payload(f[2])
        elif k == "drop":
            del b[f[1]:f[1] + f[2]]
        elif k == "append":
            b += payload(f[1])
        else:
            raise ValueError(k)
    return bytes(b)


def position(rng, link, lo=0):
    """A byte position, biased to fields that frame sections."""
    n = max(len(link.data), lo + 1)
    r = rng.random()
    if r < 0.4 and link.framing:
        a, b = rng.choice(link.framing)
        p = rng.randrange(a, b)
    elif r < 0.6:
        _, a, b = rng.choice(link.sections)
        p = rng.choice([a, b, b - 1, a + 1, (a + b) // 2])
    elif r < 0.7:
        p = rng.choice(link.parts).own[0] + rng.randrange(4)
    else:
        p = rng.randrange(n)
    return min(max(p, lo), n - 1)


def cut_at(rng, link, lo=76):
    n = len(link.data)
    r = rng.random()
    if r < 0.25:
        s = rng.choice(SECTORS)
        c = rng.randrange(n // s + 1) * s
    elif r < 0.55:
        _, a, b = rng.choice(link.sections)
        c = rng.choice([a, b]) + rng.randrange(-3, 4)
    elif r < 0.75:
        a, b = rng.choice(link.parts).own
        c = rng.choice([a, a + 1, a + 2, b - 2, b - 1, b, b + 1])
    else:
        c = rng.randrange(n + 1)
    return min(max(c, lo), n)


def overwrite(rng, link, lo=0):
    """One fault that keeps every byte in place."""
    k = rng.choice(["flip", "flip", "set", "le", "le", "zero", "stale", "swap", "dup", "text"])
    p = position(rng, link, lo)
    if k == "text":
        if rng.random() < 0.6:
            a, b = rng.choice(link.parts[1:] or link.parts).own
            p = min(max(rng.randrange(a, b), lo), len(link.data) - 1)
        return [k, p, rng.choice(TEXTS).hex()]
    n = len(link.data)
    if k == "flip":
        return [k, p, rng.randrange(8)]
    if k == "set":
        return [k, p, rng.choice([0, 1, 0xFF, 0x80, rng.randrange(256)])]
    if k == "le":
        w = rng.choice([2, 4])
        fr = [f for f in link.framing if f[0] >= lo]
        if fr and rng.random() < 0.7:
            p = rng.choice(fr)[0]
        near = [n, n - p, n - p - 1, n - p + 1, p]
        return [k, p, w, rng.choice(HOSTILE + near)]
    s = rng.choice(SECTORS + [1, 2, 4, 8])
    if k in ("zero", "stale"):
        a = p // s * s if rng.random() < 0.7 else p
        a = max(a, lo)
        return [k, a, a + s] + ([rng.choice(["ff", "cc", "e5", "41", "4c000000", rng.getrandbits(16)])] if k == "stale" else [])
    q = position(rng, link, lo)
    s = rng.choice([1, 2, 4, 8, 16, 64, 512])
    if k == "swap":
        a, b = sorted((p, q))
        return [k, a, b, s]
    return [k, p, q, s]


def odd(rng, link):
    """A reserved field, or one with a single lawful value, has another one; everything else stays intact."""
    places = [(66, 10)] + [(x.own[0] + 8, 8) for x in link.parts if x.key and "DISTRIBUTED" in str(x.key)]
    a, n = places[-1] if rng.random() < 0.7 else places[0]
    return ["set", a + rng.randrange(n), rng.choice([1, 2, 0x59, 0x80, 0xFF])]


def anything(rng, link, lo=0):
    """One fault of any kind."""
    r = rng.random()
    if r < 0.6:
        return overwrite(rng, link, lo)
    if r < 0.75:
        return ["cut", cut_at(rng, link, lo)]
    p = position(rng, link, lo)
    k = rng.choice(["insert", "drop", "append"])
    if k == "drop":
        return [k, p, rng.choice([1, 2, 3, 4, 16, 512, rng.randrange(1, 80)])]
    junk = rng.randbytes(rng.choice([1, 2, 3, 4, 8, 20])).hex() if rng.random() < 0.7 else \
        {"n": rng.choice([16, 512, 700]), "pat": rng.choice(["00", "04000000", "0300", "0800000000", rng.getrandbits(16)])}
    return [k, p, junk] if k == "insert" else [k, junk]
