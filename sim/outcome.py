"""Outcomes of operations as plain text; imported by the probe, so it depends on nothing but the interpreter."""


def perform(lnk, op):
    if op in ("dict", "dict_all"):
        return lnk.get_json(op == "dict_all")
    if op in ("json", "json_all"):
        return lnk.print_json(op == "json_all")
    if op in ("text", "text_all"):
        return lnk.print_lnk_file(op == "text_all")
    if op in ("target", "target_json"):
        return lnk.print_shortcut_target(op == "target_json")
    if op == "flags":
        return [lnk.format_linkFlags(), lnk.format_fileFlags(), lnk.lnk_command]
    if op == "header":
        h = lnk.header
        return [h.creation_time(), h.access_time(), h.write_time(), h.hot_key(), h.window_style(), h.link_flags(), h.file_flags()]
    raise ValueError(op)


OPS = ["dict", "dict_all", "json", "json_all", "target", "target_json", "flags", "header"]


def take(text):
    s = text.getvalue()
    text.seek(0)
    text.truncate()
    return s


def one(lnk, op, text):
    try:
        return ["ok", repr(perform(lnk, op)), take(text)]
    except Exception as e:  # noqa: BLE001
        return ["err", type(e).__name__, take(text)]


def all_of(cls, data, cp, terminal, ops, text):
    try:
        lnk = cls(indata=data, cp=cp, allow_terminal_blocks=terminal)
    except Exception as e:  # noqa: BLE001
        return ["refused", type(e).__name__]
    return [one(lnk, op, text) for op in ops]
