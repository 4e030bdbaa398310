"""Seeded generator of link specs (see model.py for the spec format)."""
import copy

from sim import model as M

EDGES = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 259, 260]


# What shells, formatters, markup and other readers would treat as more than text.
WORDS = ["$HOME", "${PATH}", "%PATH%", "%windir%\\system32", "~", "~root/x", "$(id)", "`id`", "{0}", "{x!r}", "%s", "%(a)s", "%%", "\\u0041",
         "\\n", "\\x41", "&amp;", "<b>", "null", "true", "No", "1e3", "0x10", "007", "1970-01-01", "12:30:45", "'", '"', '\\"', "[a]", "{a: b}",
         "- a", "a: b", "# a", "a #b", "&a", "*a", "!a", "|", ">", "@", "=", "<<", "---", "...", "NaN", ".inf", "+1", "-0", "1_000", ",", "a,b",
         " a", "a ", "  ", "a  b", "/../", "..\\..", "C:", "file:///x", "\\\\?\\x", "None", "EOF", "0" * 30]


def text(rng, cp=None, limit=None, nonempty=False, plain=0.5):
    """A string without NUL; encodable in cp when cp is given; `limit` bytes at most (ANSI) or units (wide)."""
    r = rng.random()
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21]) if r < 0.75 else rng.randrange(0, 80) if r < 0.93 else rng.choice(EDGES)
    if nonempty and n == 0:
        n = 1
    pool = M.PLAIN if rng.random() < plain else (M.alphabet(cp) if cp else M.WIDE)
    s = "".join(rng.choice(pool) for _ in range(n))
    if rng.random() < 0.05:
        w = rng.choice(WORDS)
        s = w if rng.random() < 0.5 else s[:n // 2] + w + s[n // 2:]
    if limit is not None:
        size = (lambda t: len(t.encode(cp))) if cp else M.u16len
        while size(s) > limit:
            s = s[:-1]
    return s


def hexs(rng, n):
    return rng.randbytes(n).hex()


def guid(rng):
    if rng.random() < 0.15:
        return rng.choice(["00" * 16, "ff" * 16, "0114020000000000c000000000000046", "e04fd020ea3a6910a2d808002b30309d"])
    return hexs(rng, 16)


def ext(rng):
    r = rng.random()
    if r < 0.6:
        return ""
    if r < 0.9:
        return hexs(rng, rng.randrange(1, 24))
    return hexs(rng, rng.choice([1, 2, 64, 200]))


def dostime(rng):
    if rng.random() < 0.15:
        return None
    return [rng.randrange(1980, 2108), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60),
            rng.randrange(30) * 2]


def filetime(rng):
    """Ticks the tool's float arithmetic represents exactly at microsecond resolution."""
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.3:  # whole seconds, 1601..~4000
        return rng.randrange(1, 75_000_000_000) * 10_000_000
    base = 116444736000000000
    sec = rng.randrange(86400, 4_102_444_800)
    # quarters of milliseconds survive the division by 1e7 in double precision
    return base + sec * 10_000_000 + rng.choice([0, 5_000_000, 2_500_000, 1_250_000, 9_375_000])


def item(rng, cp, nested=False):
    k = rng.choice(["root", "root", "volume", "volume", "file", "file", "file", "file", "netloc", "compressed",
                    "internet", "printers", "common", "cpanel", "cpcat", "cpl", "users", "unknown", "unknown"])
    if nested:
        k = "file"
    if k == "root":
        return {"k": k, "type": rng.choice([0x1F, 0x1F, 0x1E]), "sort": rng.choice(list(M.SORT_INDEX) + [rng.randrange(256)]), "guid": guid(rng), "ext": ext(rng)}
    if k == "volume":
        t = 0x20 | rng.randrange(16) | (0x80 if rng.random() < 0.1 else 0)
        if t & 1:
            return {"k": k, "type": t, "name": text(rng, cp, 19), "ext": ext(rng)}
        return {"k": k, "type": t, "unk": rng.randrange(256), "guid": guid(rng), "ext": ext(rng)}
    if k == "file":
        t = (0xB0 if rng.random() < 0.15 else 0x30) | rng.choice(list(M.FS_FLAG))
        return {"k": k, "type": t, "unk": rng.randrange(256), "size": rng.choice([0, 1, 2**32 - 1, rng.getrandbits(32)]),
                "time": dostime(rng), "attr": rng.getrandbits(16), "name": text(rng, None if t & 4 else cp),
                "ext": ext(rng)}
    if k == "netloc":
        t = (0xC0 if rng.random() < 0.15 else 0x40) | rng.choice(list(M.FS_FLAG))
        return {"k": k, "type": t, "unk": rng.randrange(256), "content": rng.choice([0, 0x40, 0x80, 0xC0, rng.randrange(256)]),
                "location": text(rng, cp), "desc": text(rng, cp), "comm": text(rng, cp), "ext": ext(rng)}
    if k in M.FS_KINDS:
        return {"k": k, "ext": ext(rng)}
    if k == "cpanel":
        return {"k": k, "type": rng.choice([0x70, 0x71]), "unk13": hexs(rng, 13), "guid": guid(rng), "ext": ext(rng)}
    if k == "cpcat":
        return {"k": k, "unk": rng.randrange(256), "cat": rng.choice([rng.randrange(14), rng.getrandbits(32)]), "ext": ext(rng)}
    if k == "cpl":
        wide = rng.random() < 0.6
        c = None if wide else cp
        return {"k": k, "wide": wide, "unk": rng.randrange(256), "sig": rng.choice(M.CPL_SIGNATURES + [rng.getrandbits(32)]),
                "path": text(rng, c, nonempty=not wide), "name": text(rng, c), "comm": rng.choice(["", text(rng, c)]),
                "ext": ext(rng)}
    if k == "users":
        return {"k": k, "unk": rng.randrange(256), "entry": item(rng, cp, True), "pad": rng.choice(["", "0000", hexs(rng, 3)]),
                "guid": guid(rng), "guid2": guid(rng), "ext": ext(rng)}
    return {"k": "unknown", "type": rng.choice(M.UNKNOWN_ITEM_TYPES), "ext": ext(rng)}


def info(rng, cp):
    k = rng.choice(["local", "local", "network", "both", "none"])
    wide = rng.random() < 0.4
    inf = {"k": k, "wide": wide, "suffix": text(rng, cp), "pad": rng.choice(["", "", "00", hexs(rng, 5)])}
    if wide:
        inf["hsize"] = rng.choice([0x24, 0x24, 0x28, 0x40])
    if k in ("local", "both"):
        lw = rng.random() < 0.3
        inf.update(label=text(rng, None if lw else cp), label_wide=lw, drive=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 99]),
                   serial=rng.getrandbits(32), base=text(rng, cp))
    inf["ubase"] = text(rng) if wide and rng.random() < 0.8 else None
    inf["usuffix"] = text(rng) if wide and rng.random() < 0.8 else None
    if k in ("network", "both"):
        inf.update(net=text(rng, cp), device=rng.choice([None, text(rng, cp)]), net_wide=rng.random() < 0.3,
                   nflags=rng.choice([0, 2]), provider=rng.choice(list(M.PROVIDERS) + [0, 0x1A0000, 0xFF0000]))
    if rng.random() < 0.06:
        inf["force_no"] = True
    if rng.random() < 0.4:
        inf["order"] = rng.sample(M.INFO_FIELDS, len(M.INFO_FIELDS))
    return inf


def typed(rng, named):
    t = rng.choice([0, 1, 2, 2, 2, 3, 0xB, 0x13, 0x15, 0x1F, 0x1F, 0x1F, 0x1F, 0x40, 0x48, 0x42] + rng.choices(list(M.VT), k=8))
    v = {"t": t}
    if t == 2:
        v["v"] = rng.randrange(-32768, 32768)
    elif t == 0x1F:
        v["v"] = text(rng)
    else:
        v["raw"] = hexs(rng, rng.choice([0, 4, 8, 16, 24]))
    if named:
        v["name"] = text(rng)
    else:
        v["id"] = rng.choice([0, 2, 5, 100, rng.getrandbits(32)])
    return v


def store(rng):
    named = rng.random() < 0.4
    fmt = "05d5cdd59c2e1b10939708002b2cf9ae" if named else guid(rng)
    return {"fmt": fmt, "values": [typed(rng, named) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}


def extra(rng, cp, k, big=0.0):
    if k in ("env", "icon"):
        return {"k": k, "ansi": text(rng, cp, 259), "wide": text(rng, None, 259), "fill": rng.choice(["00", hexs(rng, 4)])}
    if k == "darwin":
        return {"k": k, "ansi": text(rng, cp, 259), "product": guid(rng), "feature": darwin_feature(rng),
                "component": rng.choice([None, guid(rng)]), "fill": rng.choice(["00", hexs(rng, 4)])}
    if k == "console":
        v = []
        for _, _, f in M.CONSOLE_FIELDS:
            v.append(rng.getrandbits(16) if f == "<H" else rng.randrange(-32768, 32768) if f == "<h" else rng.getrandbits(32))
        return {"k": k, "v": v, "face": text(rng, None, 31), "junk": hexs(rng, 204)}
    if k == "tracker":
        return {"k": k, "machine": text(rng, cp, 15), "g": [guid(rng) for _ in range(4)]}
    if k == "codepage":
        return {"k": k, "v": rng.choice([437, 850, 932, 1251, 1252, 65001, 0, rng.getrandbits(32)])}
    if k == "special":
        return {"k": k, "v": rng.getrandbits(rng.choice([6, 32])), "off": rng.getrandbits(rng.choice([8, 32]))}
    if k == "known":
        return {"k": k, "guid": guid(rng), "off": rng.getrandbits(rng.choice([8, 32]))}
    if k == "shim":
        return {"k": k, "name": text(rng)}
    if k == "metadata":
        return {"k": k, "stores": [store(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
    if k == "shellitem":
        return {"k": k, "items": [item(rng, cp) for _ in range(rng.choice([0, 1, 2, 4]))]}
    sig = rng.choice([0xA0000000, 0xA000000A, 0xA000000D, 0, 0xFFFFFFFF, 0xBADC0DE5, rng.getrandbits(32)])
    if sig in M.EXTRA_NAMES:
        sig = 0
    r = rng.random()
    if r < big:
        return {"k": "unknown", "sig": sig, "n": rng.choice([65528, 65536, 70001, 131072, 300000, 1048576 + 3]), "pat": rng.getrandbits(20)}
    if r < 0.85:
        return {"k": "unknown", "sig": sig, "hex": hexs(rng, rng.choice([0, 0, 1, 3, 4, 8, 30, 120]))}
    return {"k": "unknown", "sig": sig, "n": rng.choice([500, 512, 1016, 4088, 5000]), "pat": rng.choice(["00", "ff", rng.getrandbits(20)])}


def darwin_feature(rng):
    n = rng.choice([0, 1, 4, 12])
    return "".join(rng.choice("abcdefgXYZ0189_.") for _ in range(n))


ONCE = list(M.EXTRA_SIG)


def strings(rng, cp, uni, long=0.0):
    out = {}
    for key in M.STRING_KEYS:
        if rng.random() < 0.5:
            limit = 260 if key in M.LIMITED else None
            s = text(rng, None if uni else cp, limit)
            if key not in M.LIMITED and rng.random() < long:
                n = rng.choice([300, 4096, 4097, 40000, 65535])
                s = ("".join(rng.choice(M.PLAIN) for _ in range(64)) * (n // 64 + 1))[:n]
            out[key] = s
    return out


def gen_spec(rng, big=0.02, small=False):
    cp = "cp1252" if rng.random() < 0.5 else rng.choice(M.CODEPAGES)
    uni = rng.random() < 0.6
    h = {"flags": rng.getrandbits(27) if rng.random() < 0.3 else 0,
         "attrs": rng.getrandbits(18) if rng.random() < 0.3 else rng.choice([0, 0x20, 0x10]),
         "ctime": filetime(rng), "atime": filetime(rng), "wtime": filetime(rng),
         "fsize": rng.choice([0, rng.getrandbits(32)]), "icon": rng.choice([0, 1, -1, -2**31, rng.randrange(2**31)]),
         "show": rng.choice([1, 3, 7, 0, rng.getrandbits(32)]),
         "hotkey": rng.choice([0, 0x0141, rng.choice([0, 1, 2, 4]) << 8 | rng.choice(list(M.HOT_LOW)), rng.getrandbits(16)])}
    h["flags"] &= ~M.STRUCTURAL
    most = 3 if small else 6
    targets = None
    if rng.random() < 0.65:
        targets = [item(rng, cp) for _ in range(rng.choice([0, 1, 2, 3, 4, most]))]
        if not small and rng.random() < big:
            targets += [item(rng, cp) for _ in range(rng.randrange(20, 120))]
    kinds = []
    if rng.random() < 0.75:
        kinds = rng.sample(ONCE, rng.choice([0, 1, 1, 2, 3] if small else [0, 1, 2, 3, 5, len(ONCE)]))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        kinds.insert(rng.randrange(len(kinds) + 1), "unknown")
    spec = {"cp": cp, "unicode": uni, "header": h, "targets": targets,
            "info": info(rng, cp) if rng.random() < 0.6 else None,
            "strings": strings(rng, cp, uni, 0 if small else big),
            "extras": [extra(rng, cp, k, 0 if small else big) for k in kinds],
            "term": rng.choice([0, 0, 0, 1, 2, 3])}
    if not small and rng.random() < big:
        many(rng, spec)
    return spec


def many(rng, spec):
    """Numbers of parts, and lengths of texts, well beyond those of links met every day."""
    cp = spec["cp"]
    k = rng.choice(["targets", "extras", "values", "stores", "items", "texts"])
    if k in ("targets", "items"):
        out, left = [], 60000
        for _ in range(rng.choice([130, 257, 300, 600])):
            it = rng.choice([{"k": "unknown", "type": rng.choice(M.UNKNOWN_ITEM_TYPES), "ext": hexs(rng, rng.randrange(1, 9))},
                             {"k": "cpcat", "unk": rng.randrange(256), "cat": rng.randrange(14), "ext": ""}] +
                            [item(rng, cp)] * (rng.random() < 0.2))
            left -= len(M.item_bytes(it, cp)[0]) + 2
            if left < 0:
                break
            out.append(it)
        if k == "targets":
            spec["targets"] = out
        else:
            spec["extras"] = [x for x in spec["extras"] if x["k"] != "shellitem"] + [{"k": "shellitem", "items": out}]
    elif k == "extras":
        for _ in range(rng.choice([20, 40, 70, 140, 300])):
            spec["extras"].insert(rng.randrange(len(spec["extras"]) + 1), extra(rng, cp, "unknown"))
    elif k in ("values", "stores"):
        st = [store(rng) for _ in range(1 if k == "values" else rng.choice([40, 70, 140]))]
        if k == "values":
            named = st[0]["fmt"] == "05d5cdd59c2e1b10939708002b2cf9ae"
            st[0]["values"] = [typed(rng, named) for _ in range(rng.choice([40, 140, 300]))]
        spec["extras"] = [x for x in spec["extras"] if x["k"] != "metadata"] + [{"k": "metadata", "stores": st}]
    else:
        def long(c):
            pool = M.PLAIN if rng.random() < 0.5 else (M.alphabet(c) if c else M.WIDE)
            piece = "".join(rng.choice(pool) for _ in range(37))
            n = rng.choice([261, 300, 511, 512, 513, 1000, 1024, 4096, 5000])
            return (piece * (n // 37 + 1))[:n]
        inf = spec["info"]
        for key in ("suffix", "base", "net", "ubase", "usuffix"):
            if inf and inf.get(key) is not None and rng.random() < 0.6:
                inf[key] = long(None if key[0] == "u" else cp)
        for it in spec["targets"] or []:
            for key in ("name", "location", "desc", "path"):
                if it["k"] != "volume" and isinstance(it.get(key), str) and rng.random() < 0.3:
                    it[key] = "".join(rng.choice(M.PLAIN) for _ in range(rng.choice([261, 300, 512, 1000])))


def leaves(x, path=()):
    """Paths of the texts, identifiers and times of a spec."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("cp", "k", "kind", "order"):
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, str) and x or type(x) is int and x > 1 << 33:
        yield path


def put(spec, path, v):
    for k in path[:-1]:
        spec = spec[k]
    spec[path[-1]] = v


def take(spec, path):
    for k in path:
        spec = spec[k]
    return spec


def sound(spec):
    try:
        return valid_spec(spec)
    except (KeyError, TypeError, ValueError):
        return False


def sibling(rng, spec):
    """A copy of the link which differs in the last characters of some texts, identifiers or times.

    Some texts of both may become long.
    """
    where = list(leaves(spec))
    rng.shuffle(where)
    texts = [p for p in where if p[0] in ("strings", "info") and isinstance(take(spec, p), str) and p[-1] not in ("k", "pad")]
    for p in texts[:rng.choice([0, 0, 1, 2])]:
        v = copy.deepcopy(spec)
        old = take(spec, p)
        put(v, p, old + "".join(rng.choice(M.PLAIN) for _ in range(rng.choice([10, 33, 64, 100, 150]))))
        if sound(v):
            spec = v
    out = copy.deepcopy(spec)
    n = rng.choice([1, 1, 2, 5])
    for p in texts + where:
        old = take(spec, p)
        if isinstance(old, int):
            new = old + 10_000_000
        elif set(old) <= set("0123456789abcdef") and len(old) in (32, 26):
            new = old[:-1] + "0123456789abcdef"[(int(old[-1], 16) + rng.randrange(1, 16)) % 16]
        else:
            new = old[:-1] + rng.choice(M.PLAIN)
        v = copy.deepcopy(out)
        put(v, p, new)
        if new != old and sound(v):
            out, n = v, n - 1
            if n == 0:
                break
    return spec, out


def dense(rng, spec):
    """Many parts of one or two kinds."""
    cp = spec["cp"]
    kinds = rng.sample(range(3), rng.choice([1, 2]))
    if 0 in kinds:
        want = rng.sample(["root", "volume", "file", "netloc", "cpanel", "cpl", "users", "cpcat"], rng.choice([1, 2]))
        out = []
        for _ in range(2000):
            it = item(rng, cp)
            if it["k"] in want:
                out.append(it)
                if len(out) == 30:
                    break
        spec["targets"] = out[:rng.choice([10, 20, 30])]
    if 1 in kinds:
        spec["extras"] = [x for x in spec["extras"] if x["k"] != "metadata"] + \
            [{"k": "metadata", "stores": [store(rng) for _ in range(rng.choice([5, 10, 20]))]}]
    if 2 in kinds:
        have = [x["k"] for x in spec["extras"]]
        spec["extras"] += [extra(rng, cp, k) for k in ("tracker", "known", "darwin", "shellitem") if k not in have]
    return spec


def repeat(rng, spec):
    """Let one kind of extra block occur more than once."""
    known = [x["k"] for x in spec["extras"] if x["k"] != "unknown"] or [rng.choice(ONCE)]
    k = rng.choice(known)
    for _ in range(rng.choice([1, 1, 2]) + (k not in [x["k"] for x in spec["extras"]])):
        spec["extras"].insert(rng.randrange(len(spec["extras"]) + 1), extra(rng, spec["cp"], k))


def repeats(spec):
    seen = [x["k"] for x in spec["extras"] if x["k"] != "unknown"]
    return len(seen) != len(set(seen))


# ------------------------------------------------------------------ validity (used when shrinking)


def _hex(x, n=None):
    return isinstance(x, str) and len(bytes.fromhex(x)) == (len(x) // 2 if n is None else n)


def _ansi(s, cp, limit=10**9):
    return isinstance(s, str) and set(s) <= set(M.alphabet(cp)) and len(s.encode(cp)) <= limit


def _wide(s, limit=10**9):
    return isinstance(s, str) and "\0" not in s and M.u16len(s) <= limit


def _u(x, bits):
    return type(x) is int and 0 <= x < 1 << bits


def _time(t):
    if t is None:
        return True
    y, mo, d, h, mi, s = t
    return 1980 <= y < 2108 and 1 <= mo <= 12 and 1 <= d <= 28 and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 and s % 2 == 0


def valid_item(it, cp, nested=False):
    k = it["k"]
    if k != "users" and not _hex(it.get("ext", "")):
        return False
    if nested and k != "file":
        return False
    if k == "root":
        return it["type"] in (0x1E, 0x1F) and _u(it["sort"], 8) and _hex(it["guid"], 16)
    if k == "volume":
        return _u(it["type"], 8) and it["type"] & 0x70 == 0x20 and (
            _ansi(it["name"], cp, 19) if it["type"] & 1 else _u(it["unk"], 8) and _hex(it["guid"], 16))
    if k in ("file", "netloc"):
        base = 0x30 if k == "file" else 0x40
        if not (_u(it["type"], 8) and it["type"] & 0x70 == base and it["type"] & 15 in M.FS_FLAG and _u(it["unk"], 8)):
            return False
        if k == "netloc":
            return _u(it["content"], 8) and all(_ansi(it[f], cp) for f in ("location", "desc", "comm"))
        return _u(it["size"], 32) and _time(it["time"]) and _u(it["attr"], 16) and (
            _wide(it["name"]) if it["type"] & 4 else _ansi(it["name"], cp))
    if k in M.FS_KINDS:
        return True
    if k == "cpanel":
        return it["type"] in (0x70, 0x71) and _hex(it["unk13"], 13) and _hex(it["guid"], 16)
    if k == "cpcat":
        return _u(it["unk"], 8) and _u(it["cat"], 32)
    if k == "cpl":
        ok = _wide if it["wide"] else (lambda s: _ansi(s, cp))
        return type(it["wide"]) is bool and _u(it["unk"], 8) and _u(it["sig"], 32) and ok(it["path"]) and ok(it["name"]) and \
            ok(it["comm"]) and (it["wide"] or it["path"] != "")
    if k == "users":
        return _u(it["unk"], 8) and _hex(it.get("pad", "")) and _hex(it["guid"], 16) and _hex(it["guid2"], 16) and \
            _hex(it.get("ext", "")) and valid_item(it["entry"], cp, True)
    return k == "unknown" and it["type"] in M.UNKNOWN_ITEM_TYPES


def valid_info(inf, cp):
    k = inf["k"]
    if k not in ("local", "network", "both", "none") or type(inf["wide"]) is not bool or not _hex(inf.get("pad", "")):
        return False
    if inf["wide"] and inf.get("hsize", 0x24) not in (0x24, 0x28, 0x40):
        return False
    if not _ansi(inf["suffix"], cp) or not all(inf[f] is None or (inf["wide"] and _wide(inf[f])) for f in ("ubase", "usuffix")):
        return False
    if k in ("local", "both"):
        if not (type(inf["label_wide"]) is bool and _u(inf["drive"], 32) and _u(inf["serial"], 32) and _ansi(inf["base"], cp) and
                (_wide(inf["label"]) if inf["label_wide"] else _ansi(inf["label"], cp))):
            return False
    if k in ("network", "both"):
        if not (_ansi(inf["net"], cp) and (inf["device"] is None or _ansi(inf["device"], cp)) and
                type(inf["net_wide"]) is bool and inf["nflags"] in (0, 2) and
                inf["provider"] in list(M.PROVIDERS) + [0, 0x1A0000, 0xFF0000]):
            return False
    order = inf.get("order") or []
    if not (set(order) <= set(M.INFO_FIELDS) and len(set(order)) == len(order)):
        return False
    return inf.get("force_no") in (None, True)


def valid_extra(x, cp):
    k = x["k"]
    if k in ("env", "icon", "darwin"):
        if not (_ansi(x["ansi"], cp, 259) and len(bytes.fromhex(x.get("fill", "00"))) > 0):
            return False
        if k == "darwin":
            return _hex(x["product"], 16) and (x["component"] is None or _hex(x["component"], 16)) and \
                isinstance(x["feature"], str) and all(c in "abcdefgXYZ0189_." for c in x["feature"])
        return _wide(x["wide"], 259)
    if k == "console":
        for (_, _, f), v in zip(M.CONSOLE_FIELDS, x["v"]):
            if type(v) is not int or not ((-32768 <= v < 32768) if f == "<h" else _u(v, 16 if f == "<H" else 32)):
                return False
        return len(x["v"]) == len(M.CONSOLE_FIELDS) and _wide(x["face"], 31) and _hex(x["junk"])
    if k == "tracker":
        return _ansi(x["machine"], cp, 15) and len(x["g"]) == 4 and all(_hex(g, 16) for g in x["g"])
    if k == "codepage":
        return _u(x["v"], 32)
    if k == "special":
        return _u(x["v"], 32) and _u(x["off"], 32)
    if k == "known":
        return _hex(x["guid"], 16) and _u(x["off"], 32)
    if k == "shim":
        return _wide(x["name"])
    if k == "metadata":
        for st in x["stores"]:
            if not _hex(st["fmt"], 16):
                return False
            named = M.guid_str(bytes.fromhex(st["fmt"])) == M.STRING_NAMED
            for v in st["values"]:
                if v["t"] not in M.VT or not (_wide(v["name"]) if named else _u(v["id"], 32)):
                    return False
                if v["t"] == 2 and not (type(v["v"]) is int and -32768 <= v["v"] < 32768):
                    return False
                if v["t"] == 0x1F and not _wide(v["v"]):
                    return False
                if v["t"] not in (2, 0x1F) and not (_hex(v["raw"]) and len(v["raw"]) % 8 == 0):
                    return False
        return True
    if k == "shellitem":
        return all(valid_item(i, cp) for i in x["items"])
    if k != "unknown" or not _u(x["sig"], 32) or x["sig"] in M.EXTRA_NAMES:
        return False
    return _hex(x["hex"]) if "hex" in x else _u(x["n"], 24) and (_u(x["pat"], 32) if type(x["pat"]) is int else _hex(x["pat"]))


def valid_spec(s, repeated=False):
    cp = s["cp"]
    h = s["header"]
    if cp not in M.CODEPAGES or type(s["unicode"]) is not bool or s["term"] not in (0, 1, 2, 3):
        return False
    if not (_u(h["flags"], 27) and not h["flags"] & M.STRUCTURAL and _u(h["attrs"], 18) and _u(h["fsize"], 32) and
            type(h["icon"]) is int and -2**31 <= h["icon"] < 2**31 and _u(h["show"], 32) and _u(h["hotkey"], 16)):
        return False
    for k in ("ctime", "atime", "wtime"):
        t = h[k]
        if not _u(t, 63) or t > 75_000_000_000 * 10_000_000:
            return False
        if t % 10_000_000 not in (0, 5_000_000, 2_500_000, 1_250_000, 9_375_000):
            return False
        if t % 10_000_000 and not 116444736000000000 < t < 116444736000000000 + 4_102_444_800 * 10_000_000:
            return False
    if s["targets"] is not None and not all(valid_item(i, cp) for i in s["targets"]):
        return False
    if s["info"] is not None and not valid_info(s["info"], cp):
        return False
    for k, v in s["strings"].items():
        if k not in M.STRING_KEYS:
            return False
        if v is None:
            continue
        limit = 260 if k in M.LIMITED else 65535
        if not (_wide(v, limit) if s["unicode"] else _ansi(v, cp, limit)):
            return False
    seen = [x["k"] for x in s["extras"] if x["k"] != "unknown"]
    return (repeated or len(seen) == len(set(seen))) and all(valid_extra(x, cp) for x in s["extras"])
