"""Reference model of a stored link.

A link is described by a JSON-able *spec* (gen_spec).  `build(spec)` plays the
program that wrote the link: it yields the stored bytes and, for every part
of the link, the value that has to be reported for it and its *footprint*, the
byte ranges on which that report depends (its own bytes, and the flag, size
and count fields that fix its position).  Nothing here uses LnkParse3; layouts
and tables are from [MS-SHLLINK] / libfwsi, key names from the tool's
documented output.
"""
import datetime as _dt
import hashlib
import struct

UTC = _dt.timezone.utc

LINK_FLAGS = [
    "HasTargetIDList", "HasLinkInfo", "HasName", "HasRelativePath", "HasWorkingDir", "HasArguments",
    "HasIconLocation", "IsUnicode", "ForceNoLinkInfo", "HasExpString", "RunInSeparateProcess", "Reserved0",
    "HasDarwinID", "RunAsUser", "HasExpIcon", "NoPidlAlias", "Reserved1", "RunWithShimLayer",
    "ForceNoLinkTrack", "EnableTargetMetadata", "DisableLinkPathTracking", "DisableKnownFolderTracking",
    "DisableKnownFolderAlias", "AllowLinkToLink", "UnaliasOnSave", "PreferEnvironmentPath",
    "KeepLocalIDListForUNCTarget",
]
FILE_FLAGS = [
    "FILE_ATTRIBUTE_READONLY", "FILE_ATTRIBUTE_HIDDEN", "FILE_ATTRIBUTE_SYSTEM",
    "Reserved, not used by the LNK format", "FILE_ATTRIBUTE_DIRECTORY", "FILE_ATTRIBUTE_ARCHIVE",
    "FILE_ATTRIBUTE_DEVICE", "FILE_ATTRIBUTE_NORMAL", "FILE_ATTRIBUTE_TEMPORARY", "FILE_ATTRIBUTE_SPARSE_FILE",
    "FILE_ATTRIBUTE_REPARSE_POINT", "FILE_ATTRIBUTE_COMPRESSED", "FILE_ATTRIBUTE_OFFLINE",
    "FILE_ATTRIBUTE_NOT_CONTENT_INDEXED", "FILE_ATTRIBUTE_ENCRYPTED", "FILE_ATTRIBUTE_INTEGRITY_STREAM",
    "FILE_ATTRIBUTE_VIRTUAL", "FILE_ATTRIBUTE_NO_SCRUB_DATA",
]
STRUCTURAL = 0x1FF  # flags computed by the writer
STRING_KEYS = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location"]
INFO_FIELDS = ["vol", "base", "net", "suffix", "ubase", "usuffix"]
LIMITED = {"description", "relative_path", "working_directory"}

HOT_HIGH = {0: "UNSET", 1: "SHIFT", 2: "CONTROL", 4: "ALT"}
HOT_LOW = {0: "UNSET", 0x90: "NUM_LOCK", 0x91: "SCROLL_LOCK"}
HOT_LOW.update({c: chr(c) for c in range(0x30, 0x3A)})
HOT_LOW.update({c: chr(c) for c in range(0x41, 0x5B)})
HOT_LOW.update({0x70 + i: "F%d" % (i + 1) for i in range(24)})

SORT_INDEX = {
    0x00: "Internet Explorer", 0x42: "Libraries", 0x44: "Users", 0x4C: "Public Folder", 0x48: "My Documents",
    0x50: "My Computer", 0x54: "UsersLibraries", 0x58: "My Networs Places/Network", 0x60: "Recycle Bin",
    0x68: "Internet Explorer", 0x78: "Recycle Bin", 0x80: "My Games",
}
CATEGORIES = [
    "All Control Panel Items", "Appearance and Personalization", "Hardware and Sound", "Network and Internet",
    "Sounds, Speech, and Audio Devices", "System and Security", "Clock, Language, and Region", "Ease of Access",
    "Programs", "User Accounts", "Security Center", "Mobile PC",
]
FS_FLAG = {0: "Unknown", 1: "Is directory", 2: "Is file", 3: "Is share", 4: "Has Unicode strings",
           5: "Is Unicode directory", 6: "Is Unicode file", 8: "Unknown", 9: "Is directory", 10: "Is file"}
DRIVE = ["DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED", "DRIVE_REMOTE", "DRIVE_CDROM",
         "DRIVE_RAMDISK"]
# Only entries of the tool's provider table that it can match.
PROVIDERS = {0x20000: "WNNC_NET_DECORB", 0x21000: "WNNC_NET_PROTSTOR", 0x22000: "WNNC_NET_FJ_REDIR",
             0x23000: "WNNC_NET_DISTINCT", 0x24000: "WNNC_NET_TWINS", 0x25000: "WNNC_NET_RDR2SAMPLE",
             0x26000: "WNNC_NET_CSC", 0x27000: "WNNC_NET_3IN1", 0x29000: "WNNC_NET_EXTENDNET",
             0x30000: "WNNC_NET_OBJECT_DIRE", 0x34000: "WNNC_NET_IBMAL", 0x36000: "WNNC_NET_TERMSRV",
             0x40000: "WNNC_NET_RSFX", 0x43000: "WNNC_NET_GOOGLE"}
_SCALAR = {2: "I2", 3: "I4", 4: "R4", 5: "R8", 6: "CY", 7: "DATE", 8: "BSTR", 0xA: "ERROR", 0xB: "BOOL", 0x10: "I1", 0x11: "UI1",
           0x12: "UI2", 0x13: "UI4"}
VT = {0: "VT_EMPTY", 1: "VT_NULL", 0xE: "VT_DECIMAL", 0x14: "VT_I8", 0x15: "VT_UI8", 0x16: "VT_INT", 0x17: "VT_UINT",
      0x1E: "VT_LPSTR", 0x1F: "VT_LPWSTR", 0x40: "VT_FILETIME", 0x41: "VT_BLOB", 0x42: "VT_STREAM", 0x43: "VT_STORAGE",
      0x44: "VT_STREAMED_Object", 0x45: "VT_STORED_Object", 0x46: "VT_BLOB_Object", 0x47: "VT_CF", 0x48: "VT_CLSID",
      0x49: "VT_VERSIONED_STREAM"}
VT.update({k: "VT_" + v for k, v in _SCALAR.items()})
VT.update({0x1000 + k: "VT_VECTOR_" + v for k, v in _SCALAR.items()})
VT.update({0x1000 + k: VT[k].replace("VT_", "VT_VECTOR_") for k in (0x14, 0x15, 0x1E, 0x1F, 0x40, 0x47, 0x48)})
VT.update({0x2000 + k: "VT_ARRAY_" + v for k, v in _SCALAR.items()})
VT.update({0x2000 + k: VT[k].replace("VT_", "VT_ARRAY_") for k in (0xE, 0x16, 0x17)})
VT.update({0x100C: "VT_VECTOR_VARIANT", 0x200C: "VT_ARRAY_VARIANT"})
CPL_SIGNATURES = [0, 0xFFFFEE79, 0xFFFFF444, 0xFFFFFF36, 0xFFFFFF37, 0xFFFFFF38, 0xFFFFFF9A, 0xFFFFFF9C, 0xFFFFFFFF]
STRING_NAMED = "D5CDD505-2E9C-101B-9397-08002B2CF9AE"
UNKNOWN_ITEM_TYPES = [0x02, 0x10, 0x19, 0x53, 0x50, 0x60, 0x65, 0x75, 0x7E, 0x80, 0x90, 0xD3, 0xE0, 0xF1, 0xFF]
B85 = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"
FS_KINDS = {"compressed": (0x52, "Compressed folder"), "internet": (0x61, "Internet"),
            "printers": (0x72, "Printers"), "common": (0x73, "Common places folder")}
EXTRA_NAMES = {
    0xA0000001: "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK", 0xA0000002: "CONSOLE_PROPERTIES_BLOCK",
    0xA0000003: "DISTRIBUTED_LINK_TRACKER_BLOCK", 0xA0000004: "CONSOLE_CODEPAGE_BLOCK",
    0xA0000005: "SPECIAL_FOLDER_LOCATION_BLOCK", 0xA0000006: "DARWIN_BLOCK", 0xA0000007: "ICON_LOCATION_BLOCK",
    0xA0000008: "SHIM_LAYER_BLOCK", 0xA0000009: "METADATA_PROPERTIES_BLOCK",
    0xA000000B: "KNOWN_FOLDER_LOCATION_BLOCK", 0xA000000C: "SHELL_ITEM_IDENTIFIER_BLOCK",
}
EXTRA_SIG = {"env": 0xA0000001, "console": 0xA0000002, "tracker": 0xA0000003, "codepage": 0xA0000004,
             "special": 0xA0000005, "darwin": 0xA0000006, "icon": 0xA0000007, "shim": 0xA0000008,
             "metadata": 0xA0000009, "known": 0xA000000B, "shellitem": 0xA000000C}
CONSOLE_FIELDS = [  # name, offset, format
    ("fill_attributes", 8, "<H"), ("popup_fill_attributes", 10, "<H"), ("screen_buffer_size_x", 12, "<h"),
    ("screen_buffer_size_y", 14, "<h"), ("window_size_x", 16, "<h"), ("window_size_y", 18, "<h"),
    ("window_origin_x", 20, "<h"), ("window_origin_y", 22, "<h"), ("font_size", 32, "<I"),
    ("font_family", 36, "<I"), ("font_weight", 40, "<I"), ("cursor_size", 108, "<I"), ("full_screen", 112, "<I"),
    ("quick_edit", 116, "<I"), ("insert_mode", 120, "<I"), ("auto_position", 124, "<I"),
    ("history_buffer_size", 128, "<I"), ("number_of_history_buffers", 132, "<I"), ("history_no_dup", 136, "<I"),
    ("color_table", 140, "<I"),
]
CODEPAGES = ["cp1252", "cp437", "cp850", "cp1251", "cp1250", "cp932", "cp936", "cp949", "utf-8", "latin-1", "koi8-r"]

_ALPHA = {}


def alphabet(cp):
    """Characters which survive cp -> bytes -> cp and have no zero byte."""
    if cp not in _ALPHA:
        out = []
        pool = list(range(0x20, 0x7F)) + list(range(0xA0, 0x180)) + list(range(0x410, 0x450)) + \
            list(range(0x3041, 0x3060)) + list(range(0x4E00, 0x4E60)) + list(range(0xAC00, 0xAC20)) + [0x2022, 0x20AC]
        for c in pool:
            try:
                b = chr(c).encode(cp)
                if 0 not in b and b.decode(cp) == chr(c):
                    out.append(chr(c))
            except UnicodeError:
                pass
        _ALPHA[cp] = out
    return _ALPHA[cp]


WIDE = [chr(c) for c in list(range(0x20, 0x7F)) + list(range(0xA1, 0x140)) + list(range(0x410, 0x450)) +
        list(range(0x4E00, 0x4E40)) + [0x20AC, 0x2013, 0x100, 0x200, 0xFF41, 0x1F600, 0x1F4A9, 0x20000]]
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-_\\:%/"


# ------------------------------------------------------------------ helpers


def guid_str(raw):
    """Textual GUID of 16 stored bytes, per [MS-DTYP]."""
    a, b, c = struct.unpack("<IHH", raw[:8])
    return "%08X-%04X-%04X-%s-%s" % (a, b, c, raw[8:10].hex().upper(), raw[10:16].hex().upper())


def pack_guid(raw):
    out = ""
    for (q,) in struct.iter_unpack("<I", raw):
        for _ in range(5):
            q, d = divmod(q, 85)
            out += B85[d]
    return out


EPOCH_1601 = _dt.datetime(1601, 1, 1, tzinfo=UTC)


def filetime_value(ticks):
    return None if ticks == 0 else EPOCH_1601 + _dt.timedelta(microseconds=ticks // 10)


def dostime_value(parts):
    if parts is None:
        return None
    return _dt.datetime(*parts, tzinfo=UTC)


def dostime_bytes(parts):
    if parts is None:
        return b"\0\0\0\0"
    y, mo, d, h, mi, s = parts
    return struct.pack("<HH", (y - 1980) << 9 | mo << 5 | d, h << 11 | mi << 5 | s // 2)


def utf16(s):
    return s.encode("utf-16le")


def u16len(s):
    return len(utf16(s)) // 2


def _hotkey(raw):
    lo, hi = raw & 255, raw >> 8
    h, l = HOT_HIGH.get(hi), HOT_LOW.get(lo)
    hexed = struct.pack("<H", raw).hex()
    return "%s - %s {0x%s}" % (h, l, hexed) if h and l else hexed


# ------------------------------------------------------------------ building


class Part:
    """One reported part: `path` names it, `ranges` is its footprint, `value` the expected full report."""

    __slots__ = ("kind", "key", "value", "ranges", "own")

    def __init__(self, kind, key, value, ranges, own):
        self.kind, self.key, self.value, self.ranges, self.own = kind, key, value, ranges, own

    def intact(self, orig, dmg):
        return all(b <= len(dmg) and orig[a:b] == dmg[a:b] for a, b in self.ranges)


class Link:
    """The stored link: bytes, parts, section map, expected report."""

    def __init__(self, spec):
        self.spec = spec
        self.cp = spec["cp"]
        self.parts = []
        self.sections = []  # (name, start, end)
        self.framing = []   # (start, end) of flag, size, count and offset fields
        self.data = b""
        self.expected = None

    def options(self):
        return {"cp": self.cp}


def item_bytes(it, cp):
    """-> (stored bytes incl. the size field, expected dict)"""
    k = it["k"]
    if k == "root":
        g = bytes.fromhex(it["guid"])
        body = struct.pack("<BB", it.get("type", 0x1F), it["sort"]) + g + bytes.fromhex(it.get("ext", ""))
        exp = {"class": "Root Folder", "sort_index": SORT_INDEX.get(it["sort"], "Unknown"),
               "sort_index_value": it["sort"], "guid": guid_str(g)}
    elif k == "volume":
        flags = it["type"] & 0x0F
        exp = {"class": "Volume Item", "flags": hex(flags)}
        if flags & 1:
            name = it["name"].encode(cp)
            body = bytes([it["type"]]) + name.ljust(20, b"\0") + bytes.fromhex(it.get("ext", ""))
            exp["volume_name"] = it["name"]
        else:
            g = bytes.fromhex(it["guid"])
            body = bytes([it["type"], it["unk"]]) + g + bytes.fromhex(it.get("ext", ""))
            exp["volume_identifier"] = guid_str(g)
    elif k == "file":
        wide = bool(it["type"] & 4)
        name = utf16(it["name"]) + b"\0\0" if wide else it["name"].encode(cp) + b"\0"
        body = bytes([it["type"], it["unk"]]) + struct.pack("<I", it["size"]) + dostime_bytes(it["time"]) + \
            struct.pack("<H", it["attr"]) + name + bytes.fromhex(it.get("ext", ""))
        exp = {"class": "File entry", "flags": FS_FLAG[it["type"] & 0x0F], "file_size": it["size"],
               "modification_time": dostime_value(it["time"]), "file_attribute_flags": it["attr"],
               "primary_name": it["name"]}
    elif k == "netloc":
        body = bytes([it["type"], it["unk"], it["content"]]) + it["location"].encode(cp) + b"\0"
        exp = {"class": "Network location", "flags": FS_FLAG[it["type"] & 0x0F], "content_flags": it["content"],
               "location": it["location"], "description": None, "comments": None}
        if it["content"] & 0x80:
            body += it["desc"].encode(cp) + b"\0"
            exp["description"] = it["desc"]
        if it["content"] & 0x40:
            body += it["comm"].encode(cp) + b"\0"
            exp["comments"] = it["comm"]
        body += bytes.fromhex(it.get("ext", ""))
    elif k in FS_KINDS:
        t, name = FS_KINDS[k]
        body = bytes([t]) + bytes.fromhex(it.get("ext", ""))
        exp = {"class": name}
    elif k == "cpanel":
        g = bytes.fromhex(it["guid"])
        body = bytes([it["type"]]) + bytes.fromhex(it["unk13"]) + g + bytes.fromhex(it.get("ext", ""))
        exp = {"class": "Control panel", "item_identifier": guid_str(g)}
    elif k == "cpcat":
        body = bytes([0x01, it["unk"]]) + struct.pack("<II", 0x39DE2184, it["cat"]) + bytes.fromhex(it.get("ext", ""))
        exp = {"class": "Control panel category", "category_id": it["cat"],
               "category": CATEGORIES[it["cat"]] if it["cat"] < len(CATEGORIES) else "Unknown"}
    elif k == "cpl":
        wide = it["wide"]

        def enc(s):
            return utf16(s) + b"\0\0" if wide else s.encode(cp) + b"\0"

        def units(s):
            return len(enc(s)) // (2 if wide else 1)

        noff = units(it["path"])
        coff = noff + units(it["name"]) if it["comm"] else 0
        head = struct.pack("<BBI", 0x00, it["unk"], it["sig"])
        if wide:
            head += bytes(12)
        body = head + struct.pack("<HH", noff, coff) + enc(it["path"]) + enc(it["name"])
        if it["comm"]:
            body += enc(it["comm"])
        body += bytes.fromhex(it.get("ext", ""))
        exp = {"class": "Control panel CPL file", "signature": "0x%08X" % it["sig"], "cpl_file_path": it["path"],
               "name": it["name"], "comments": it["comm"]}
    elif k == "users":
        entry, eexp = item_bytes(it["entry"], cp)
        inner = b"CFSF" + entry + bytes.fromhex(it.get("pad", ""))
        a, b = bytes.fromhex(it["guid"]), bytes.fromhex(it["guid2"])
        body = struct.pack("<BBH", 0x74, it["unk"], len(inner)) + inner + a + b + bytes.fromhex(it.get("ext", ""))
        exp = {"class": "Users files folder", "signature": "CFSF", "file_entry": eexp,
               "delegate_class_id": guid_str(a), "delegate_folder_id": guid_str(b)}
    elif k == "unknown":
        body = bytes([it["type"]]) + bytes.fromhex(it.get("ext", ""))
        exp = {"class": "Unknown", "size": 2 + 2 + len(body)}
    else:
        raise ValueError(k)
    return struct.pack("<H", 2 + len(body)) + body, exp


def _fixed(b, n, fill):
    """n-byte field: b, terminator, then undefined bytes."""
    return (b + fill * n)[:n]


def extra_bytes(x, cp):
    k = x["k"]
    if k in ("env", "icon", "darwin"):
        a = x["ansi"].encode(cp) + b"\0"
        fill = bytes.fromhex(x.get("fill", "00"))
        if k == "darwin":
            text = pack_guid(bytes.fromhex(x["product"])) + x["feature"]
            text += ">" + pack_guid(bytes.fromhex(x["component"])) if x["component"] else "<"
        else:
            text = x["wide"]
        body = _fixed(a, 260, fill) + _fixed(utf16(text) + b"\0\0", 520, fill)
        if k == "darwin":
            exp = {"darwin_data_ansi": x["ansi"], "darwin_data_unicode": text,
                   "product_code_id": guid_str(bytes.fromhex(x["product"])),
                   "feature_name": x["feature"] or None,
                   "component_id": guid_str(bytes.fromhex(x["component"])) if x["component"] else None}
        else:
            exp = {"target_ansi": x["ansi"], "target_unicode": text}
    elif k == "console":
        raw = bytearray(bytes.fromhex(x["junk"]).ljust(204, b"\0")[:204])
        exp = {}
        for (name, off, fmt), v in zip(CONSOLE_FIELDS, x["v"]):
            struct.pack_into(fmt, raw, off, v)
            exp[name] = v
        face = _fixed(utf16(x["face"]) + b"\0\0", 64, b"\0")
        raw[44:108] = face
        exp["face_name"] = x["face"]
        body = bytes(raw[8:])
    elif k == "tracker":
        g = [bytes.fromhex(h) for h in x["g"]]
        body = struct.pack("<II", 0x58, 0) + _fixed(x["machine"].encode(cp) + b"\0", 16, b"\0") + b"".join(g)
        exp = {"length": 0x58, "version": 0, "machine_identifier": x["machine"],
               "droid_volume_identifier": guid_str(g[0]), "droid_file_identifier": guid_str(g[1]),
               "birth_droid_volume_identifier": guid_str(g[2]), "birth_droid_file_identifier": guid_str(g[3])}
    elif k == "codepage":
        body, exp = struct.pack("<I", x["v"]), {"code_page": x["v"]}
    elif k == "special":
        body = struct.pack("<II", x["v"], x["off"])
        exp = {"special_folder_id": x["v"], "offset": x["off"]}
    elif k == "known":
        g = bytes.fromhex(x["guid"])
        body = g + struct.pack("<I", x["off"])
        exp = {"known_folder_id": guid_str(g), "offset": x["off"]}
    elif k == "shim":
        t = utf16(x["name"]) + b"\0\0"
        body = t.ljust(max(0x80, len(t)), b"\0")
        exp = {"layer_name": x["name"]}
    elif k == "metadata":
        body, exp = b"", {"property_store": []}
        for st in x["stores"]:
            g = bytes.fromhex(st["fmt"])
            named = guid_str(g) == STRING_NAMED
            vals, vexp = b"", []
            for v in st["values"]:
                t = v["t"]
                if t == 2:
                    payload, val = struct.pack("<h", v["v"]) + b"\0\0", v["v"]
                elif t == 0x1F:
                    s = utf16(v["v"]) + b"\0\0"
                    payload, val = struct.pack("<I", len(s) // 2) + s, v["v"]
                    payload += bytes(-len(payload) % 4)
                else:
                    payload, val = bytes.fromhex(v["raw"]), None
                typed = struct.pack("<HH", t, 0) + payload
                e = {"value": val, "value_type": VT[t]}
                if named:
                    nm = utf16(v["name"]) + b"\0\0"
                    vb = struct.pack("<IB", len(nm), 0) + nm + typed
                    e["name_size"], e["name"] = len(nm), v["name"]
                else:
                    vb = struct.pack("<IB", v["id"], 0) + typed
                    e["id"] = v["id"]
                e["value_size"] = 4 + len(vb)
                vals += struct.pack("<I", 4 + len(vb)) + vb
                vexp.append(e)
            raw = struct.pack("<I", 0x53505331) + g + vals + bytes(4)
            body += struct.pack("<I", 4 + len(raw)) + raw
            exp["property_store"].append({"storage_size": 4 + len(raw), "version": "0x53505331",
                                          "format_id": guid_str(g), "serialized_property_values": vexp})
        body += bytes(4)
    elif k == "shellitem":
        body, exp = b"", {"id_list": []}
        for it in x["items"]:
            b, e = item_bytes(it, cp)
            body += b
            exp["id_list"].append(e)
        body += b"\0\0"
    elif k == "unknown":
        body = unknown_payload(x)
        sig = struct.pack("<I", x["sig"])
        exp = {"extra_data_sha256": hashlib.sha256(sig + body).hexdigest()}
    else:
        raise ValueError(k)
    sig = x["sig"] if k == "unknown" else EXTRA_SIG[k]
    size = 8 + len(body)
    exp["size"] = size
    return struct.pack("<II", size, sig) + body, exp


def unknown_payload(x):
    if "hex" in x:
        return bytes.fromhex(x["hex"])
    return pattern(x["n"], x["pat"])


def pattern(n, pat):
    """n bytes of a deterministic pattern: an int seed or a repeated hex string."""
    if isinstance(pat, str):
        p = bytes.fromhex(pat) or b"\0"
        return (p * (n // len(p) + 1))[:n]
    h = hashlib.sha256(b"%d" % pat).digest()
    return (h * (n // 32 + 1))[:n]


def _info_bytes(inf, cp):
    """-> (bytes, expected full dict or {}, [(name, its keys of the dict, byte ranges)])"""
    k = inf["k"]
    flags = {"local": 1, "network": 2, "both": 3, "none": 0}[k]
    wide = inf["wide"]
    hsize = inf.get("hsize", 0x24) if wide else 0x1C
    opt = b""
    blob = b""
    off = {}

    todo = {}

    def put(name, b, align=1):
        todo[name] = b, align

    li = {}
    if flags & 1:
        lab = inf["label"]
        if inf["label_wide"]:
            vol_head = 0x14
            vol_data = utf16(lab) + b"\0\0"
            vol = struct.pack("<IIIII", 0x14 + len(vol_data), inf["drive"], inf["serial"], 0x14, 0x14) + vol_data
        else:
            vol_head = 0x10
            vol_data = lab.encode(cp) + b"\0"
            vol = struct.pack("<IIII", 0x10 + len(vol_data), inf["drive"], inf["serial"], 0x10) + vol_data
        put("vol", vol, 4)
        put("base", inf["base"].encode(cp) + b"\0")
        li = {"volume_id_size": len(vol), "r_drive_type": inf["drive"], "volume_label_offset": vol_head,
              "drive_serial_number": hex(inf["serial"]),
              "drive_type": DRIVE[inf["drive"]] if inf["drive"] < len(DRIVE) else None,
              "volume_label": None if inf["label_wide"] else lab}
        if inf["label_wide"]:
            li["volume_label_unicode_offset"] = 0x14
            li["volume_label_unicode"] = lab
    if flags & 2:
        nwide = inf["net_wide"]
        head = 0x1C if nwide else 0x14
        data = inf["net"].encode(cp) + b"\0"
        net_off, dev_off, unet, udev = head, 0, 0, 0
        nflags = inf["nflags"] & 2
        if inf["device"] is not None:
            nflags |= 1
            dev_off = head + len(data)
            data += inf["device"].encode(cp) + b"\0"
        if nwide:
            unet = head + len(data)
            data += utf16(inf["net"]) + b"\0\0"
            if inf["device"] is not None:
                udev = head + len(data)
                data += utf16(inf["device"]) + b"\0\0"
        prov = inf["provider"] if nflags & 2 else 0
        cn = struct.pack("<IIIII", head + len(data), nflags, net_off, dev_off, prov)
        if nwide:
            cn += struct.pack("<II", unet, udev)
        cn += data
        put("net", cn, 4)
        if flags == 2:
            li = {"common_network_relative_link_size": len(cn), "common_network_relative_link_flags": nflags,
                  "net_name_offset": net_off, "device_name_offset": dev_off, "r_network_provider_type": hex(prov)}
            if nflags & 2 and prov in PROVIDERS:
                li["network_provider_type"] = PROVIDERS[prov]
            if nwide:
                li["net_name_offset_unicode"], li["net_name_unicode"] = unet, inf["net"]
                if udev:
                    li["device_name_offset_unicode"], li["device_name_unicode"] = udev, inf["device"]
            else:
                if inf["net"]:
                    li["net_name"] = inf["net"]
                if inf["device"]:
                    li["device_name"] = inf["device"]
    if flags:
        put("suffix", inf["suffix"].encode(cp) + b"\0")
    if wide:
        if flags & 1 and inf["ubase"] is not None:
            put("ubase", utf16(inf["ubase"]) + b"\0\0", 2)
        if flags and inf["usuffix"] is not None:
            put("usuffix", utf16(inf["usuffix"]) + b"\0\0", 2)
    # The offsets leave the writer free to store the fields in any order.
    rank = {n: i for i, n in enumerate(inf.get("order") or [])}
    for name in sorted(todo, key=lambda n: rank.get(n, -1)):
        b, align = todo[name]
        while (hsize + len(blob)) % align:
            blob += b"\0"
        off[name] = hsize + len(blob)
        blob += b
    if wide:
        opt = struct.pack("<II", off.get("ubase", 0), off.get("usuffix", 0)).ljust(hsize - 0x1C, b"\0")
    blob += bytes.fromhex(inf.get("pad", ""))
    size = hsize + len(blob)
    raw = struct.pack("<7I", size, hsize, flags, off.get("vol", 0), off.get("base", 0), off.get("net", 0),
                      off.get("suffix", 0)) + opt + blob
    assert len(raw) == size
    if not flags:
        return raw, {}, []
    head = {"link_info_size": size, "link_info_header_size": hsize, "link_info_flags": flags,
            "volume_id_offset": off.get("vol", 0), "local_base_path_offset": off.get("base", 0),
            "common_network_relative_link_offset": off.get("net", 0), "common_path_suffix_offset": off.get("suffix", 0)}
    where = "vol" if flags & 1 else "net"
    parts = [("header", head, None), (where, {"location": "Local" if flags & 1 else "Network", "location_info": li}, where)]
    if "base" in off:
        parts.append(("base", {"local_base_path": inf["base"]}, "base"))
    if "suffix" in off:
        parts.append(("suffix", {"common_path_suffix": inf["suffix"]}, "suffix"))
    if "ubase" in off:
        parts.append(("ubase", {"local_base_path_offset_unicode": off["ubase"], "local_base_path_unicode": inf["ubase"]}, "ubase"))
    if "usuffix" in off:
        parts.append(("usuffix", {"common_path_suffix_offset_unicode": off["usuffix"],
                                  "common_path_suffix_unicode": inf["usuffix"]}, "usuffix"))
    exp = {k: v for _, e, _ in parts for k, v in e.items()}
    fine = [(name, e, [(0, hsize)] + ([(off[at], off[at] + len(todo[at][0]))] if at else [])) for name, e, at in parts]
    return raw, exp, fine


def build(spec):
    L = Link(spec)
    cp = spec["cp"]
    h = spec["header"]
    flags = h["flags"] & ~STRUCTURAL
    if spec["targets"] is not None:
        flags |= 1
    if spec["info"] is not None:
        flags |= 2
        if spec["info"].get("force_no"):
            flags |= 0x100
    for i, key in enumerate(STRING_KEYS):
        if spec["strings"].get(key) is not None:
            flags |= 4 << i
    if spec["unicode"]:
        flags |= 0x80
    clsid = bytes.fromhex("0114020000000000c000000000000046")
    hdr = struct.pack("<I", 76) + clsid + struct.pack(
        "<IIQQQIiIHHII", flags, h["attrs"], h["ctime"], h["atime"], h["wtime"], h["fsize"], h["icon"], h["show"],
        h["hotkey"], 0, 0, 0)
    assert len(hdr) == 76
    P = L.parts.append
    hfields = {
        "guid": (4, 20, "00021401-0000-0000-C000-000000000046"),
        "r_link_flags": (20, 24, flags),
        "r_file_flags": (24, 28, h["attrs"]),
        "creation_time": (28, 36, filetime_value(h["ctime"])),
        "accessed_time": (36, 44, filetime_value(h["atime"])),
        "modified_time": (44, 52, filetime_value(h["wtime"])),
        "file_size": (52, 56, h["fsize"]),
        "icon_index": (56, 60, h["icon"]),
        "windowstyle": (60, 64, {3: "SW_SHOWMAXIMIZED", 7: "SW_SHOWMINNOACTIVE"}.get(h["show"], "SW_SHOWNORMAL")),
        "hotkey": (64, 66, _hotkey(h["hotkey"])),
        "r_hotkey": (64, 66, h["hotkey"]),
        "link_flags": (20, 24, [n for i, n in enumerate(LINK_FLAGS) if flags >> i & 1]),
        "file_flags": (24, 28, [n for i, n in enumerate(FILE_FLAGS) if h["attrs"] >> i & 1]),
        "header_size": (0, 4, 76),
        "reserved0": (66, 68, 0), "reserved1": (68, 72, 0), "reserved2": (72, 76, 0),
    }
    exp = {"header": {}}
    for key, (a, b, v) in hfields.items():
        exp["header"][key] = v
        P(Part("header", key, v, [(0, 4), (a, b)], (a, b)))
    L.framing += [(0, 4), (20, 24)]
    L.sections.append(("header", 0, 76))
    out = bytearray(hdr)
    chain = [(0, 4), (20, 24)]

    if spec["targets"] is not None:
        start = len(out)
        items = [item_bytes(it, cp) for it in spec["targets"]]
        total = sum(len(b) for b, _ in items) + 2
        out += struct.pack("<H", total)
        chain.append((start, start + 2))
        L.framing.append((start, start + 2))
        ichain = list(chain)
        lst = []
        for i, (b, e) in enumerate(items):
            a = len(out)
            out += b
            ichain.append((a, a + 2))
            L.framing.append((a, a + 2))
            P(Part("target", i, e, ichain[:-1] + [(a, len(out))], (a, len(out))))
            lst.append(e)
        out += b"\0\0"
        exp["target"] = {"size": total, "items": lst, "index": start + 2}
        P(Part("target_size", None, total, list(chain), (start, start + 2)))
        P(Part("targets", None, lst, [(0, 4), (20, 24), (start, len(out))], (start, len(out))))
        L.sections.append(("targets", start, len(out)))

    exp["link_info"] = {}
    if spec["info"] is not None:
        start = len(out)
        b, e, fine = _info_bytes(spec["info"], cp)
        if spec["info"].get("force_no"):
            e, fine = {}, []
        out += b
        exp["link_info"] = e
        P(Part("info", None, e, list(chain) + [(start, len(out))], (start, len(out))))
        for name, v, ranges in fine:
            at = [(start + x, start + y) for x, y in ranges]
            P(Part("infopart", name, v, list(chain) + at, at[-1]))
        chain.append((start, start + 4))
        L.framing.append((start, start + 4))
        for o in range(start + 4, min(start + 36, len(out)), 4):
            L.framing.append((o, o + 4))
        L.sections.append(("info", start, len(out)))

    exp["data"] = {}
    sstart = len(out)
    for key in STRING_KEYS:
        s = spec["strings"].get(key)
        if s is None:
            continue
        a = len(out)
        if spec["unicode"]:
            raw = utf16(s)
            n = len(raw) // 2
        else:
            raw = s.encode(cp)
            n = len(raw)
        out += struct.pack("<H", n) + raw
        exp["data"][key] = s
        P(Part("string", key, s, list(chain) + [(a, len(out))], (a, len(out))))
        chain.append((a, a + 2))
        L.framing.append((a, a + 2))
    L.sections.append(("strings", sstart, len(out)))

    exp["extra"] = {}
    L.extra_start = len(out)
    L.extra_chain = list(chain)
    nunk = 0
    for x in spec["extras"]:
        a = len(out)
        b, e = extra_bytes(x, cp)
        out += b
        if x["k"] == "unknown":
            exp["extra"].setdefault("UNKNOWN_BLOCK", []).append(e)
            P(Part("unknown", nunk, e, list(chain) + [(a, len(out))], (a, len(out))))
            nunk += 1
        else:
            name = EXTRA_NAMES[EXTRA_SIG[x["k"]]]
            exp["extra"][name] = e
            P(Part("extra", name, e, list(chain) + [(a, len(out))], (a, len(out))))
        chain.append((a, a + 4))
        L.framing.append((a, a + 8))
        L.sections.append(("extra:" + x["k"], a, len(out)))
    L.sections.append(("term", len(out), len(out) + 4))
    out += struct.pack("<I", spec["term"])
    L.data = bytes(out)
    exp["size"] = len(L.data)
    L.expected = exp
    return L


# ------------------------------------------------------------------ reports


def short_of(full):
    """The short report that belongs to a full one."""
    r = dict(full)
    r["header"] = {k: v for k, v in full["header"].items()
                   if k not in ("header_size", "reserved0", "reserved1", "reserved2")}
    drop = {"link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset",
            "common_network_relative_link_offset", "common_path_suffix_offset"}
    li = {k: v for k, v in full["link_info"].items() if k not in drop}
    if "location_info" in li:
        d2 = {"Local": {"volume_id_size", "volume_label_offset"},
              "Network": {"common_network_relative_link_size", "net_name_offset", "device_name_offset"},
              }.get(li.get("location"), set())
        li["location_info"] = {k: v for k, v in li["location_info"].items() if k not in d2}
    r["link_info"] = li
    if "target" in full:
        r["target"] = {"items": [{k: v for k, v in it.items() if k != "modification_time"}
                                 for it in full["target"]["items"]]}
    return r


def jsonable(x):
    """What the JSON document of a dictionary report has to contain."""
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [jsonable(v) for v in x]
    if isinstance(x, _dt.datetime):
        return x.replace(microsecond=0).isoformat()
    return x


def _nice(k, upper=False):
    if k.startswith("r_"):
        k = k[2:]
    if upper or k.upper() == k:
        return k.upper().replace("_", " ")
    return k.capitalize().replace("_", " ")


def _nice_keys(x, upper=False):
    if isinstance(x, list):
        return [_nice_keys(i) for i in x]
    if isinstance(x, dict):
        if "class" in x:
            return {x["class"]: _nice_keys({k: v for k, v in x.items() if k != "class"})}
        return {_nice(k, upper): _nice_keys(v) for k, v in x.items()}
    return x


def textual(report):
    """Structure of the text report that belongs to a dictionary report."""
    r = dict(report)
    h = dict(r.pop("header"))
    h.pop("r_hotkey", None)
    for k in ("link_flags", "file_flags"):
        raw = h.pop("r_" + k)
        h[k] = " | ".join(h[k]) + (" - (%d)" % raw if raw else "(%d)" % raw)
    out = _nice_keys(h)
    out.update(_nice_keys(r, True))
    return out


def shortcut_target(link):
    """(relative path, arguments) of an undamaged link."""
    return link.spec["strings"].get("relative_path"), link.spec["strings"].get("command_line_arguments")


# ------------------------------------------------------------------ oracle


def extra_walk(link, dmg):
    """Kinds of the blocks an extra-data reader meets in dmg."""
    pos, out = link.extra_start, []
    while pos + 8 <= len(dmg):
        size, sig = struct.unpack("<II", dmg[pos:pos + 8])
        if size < 4:
            break
        out.append(EXTRA_NAMES.get(sig, "UNKNOWN_BLOCK"))
        pos += size
    return out


def subsequence(need, have):
    it = iter(have)
    return all(any(n == h for h in it) for n in need)


def judge(link, dmg, report, full=True):
    """Compare a report on damaged bytes with what has survived.  -> list of problems"""
    bad = []
    orig = link.data
    intact = [p for p in link.parts if p.intact(orig, dmg)]
    same = dmg == orig
    exp = link.expected if full else short_of(link.expected)
    if same:
        for k in sorted(set(exp) | set(report)):
            if k not in report or k not in exp or report[k] != exp[k]:
                bad.append(("undamaged", k, diff(exp.get(k), report.get(k))))
        return bad
    want_items, want_unknown = [], []
    names = None
    for p in intact:
        if p.kind == "header":
            if not full and p.key in ("header_size", "reserved0", "reserved1", "reserved2"):
                continue
            got = report.get("header", {}).get(p.key, "<absent>")
            if got != p.value:
                bad.append(("header", p.key, "stored %r reported %r" % (p.value, got)))
        elif p.kind == "target":
            v = p.value if full else {k: x for k, x in p.value.items() if k != "modification_time"}
            want_items.append(v)
        elif p.kind == "target_size":
            if full and report.get("target", {}).get("size") != p.value:
                bad.append(("target_size", None, "stored %r reported %r" % (p.value, report.get("target"))))
        elif p.kind == "targets":
            v = p.value if full else [{k: x for k, x in i.items() if k != "modification_time"} for i in p.value]
            if report.get("target", {}).get("items") != v:
                bad.append(("targets", None, diff(v, report.get("target", {}).get("items"))))
        elif p.kind == "info":
            if report.get("link_info") != exp["link_info"]:
                bad.append(("info", None, diff(exp["link_info"], report.get("link_info"))))
        elif p.kind == "infopart":
            v = {k: exp["link_info"][k] for k in p.value if k in exp["link_info"]}
            got = {k: x for k, x in report.get("link_info", {}).items() if k in p.value}
            if got != v:
                bad.append(("info", p.key, diff(v, got)))
        elif p.kind == "string":
            got = report.get("data", {}).get(p.key, "<absent>")
            if got != p.value:
                bad.append(("string", p.key, "stored %r reported %r" % (p.value[:60], got[:60])))
        elif p.kind == "unknown":
            want_unknown.append(p.value)
        elif p.kind == "extra":
            if names is None:
                names = extra_walk(link, dmg)
            if names.count(p.key) > 1:
                continue
            got = report.get("extra", {}).get(p.key, "<absent>")
            if got != p.value:
                bad.append(("extra", p.key, diff(p.value, got)))
    if want_items and not subsequence(want_items, report.get("target", {}).get("items", [])):
        bad.append(("target", None, "intact items %s are not reported in order: %s" % (
            trunc(want_items), trunc(report.get("target")))))
    if want_unknown and not subsequence(want_unknown, report.get("extra", {}).get("UNKNOWN_BLOCK", [])):
        bad.append(("unknown", None, "intact blocks %s are not reported in order: %s" % (
            trunc(want_unknown), trunc(report.get("extra", {}).get("UNKNOWN_BLOCK")))))
    return bad


def judge_cut(link, cut, report):
    """Nothing may be reported for a part of which no byte survived."""
    bad = []
    surv = {}
    for p in link.parts:
        if p.own[0] < cut:
            surv.setdefault(p.kind, []).append(p.key)
    n = len(report.get("target", {}).get("items", []))
    if n > len(surv.get("target", [])):
        bad.append(("target", None, "%d items reported, %d stored before the cut" % (n, len(surv.get("target", [])))))
    for k in report.get("data", {}):
        if k not in surv.get("string", []):
            bad.append(("string", k, "reported although no byte of it survived"))
    for k, v in report.get("extra", {}).items():
        if k == "UNKNOWN_BLOCK":
            if len(v) > len(surv.get("unknown", [])):
                bad.append(("unknown", k, "%d reported, %d stored before the cut" % (
                    len(v), len(surv.get("unknown", [])))))
        elif k not in surv.get("extra", []):
            bad.append(("extra", k, "reported although no byte of it survived"))
    return bad


def trunc(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b, path=""):
    """Short description of the first difference."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s: extra key %s = %s" % (path, k, trunc(b[k], 80))
            if k not in b:
                return "%s: missing key %s = %s" % (path, k, trunc(a[k], 80))
            if a[k] != b[k]:
                return diff(a[k], b[k], path + "/" + str(k))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: expected %d entries, got %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/%d" % i)
    return "%s: expected %s, got %s" % (path, trunc(a, 120), trunc(b, 120))
