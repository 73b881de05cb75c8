"""Reference grammar of the OpenWebNet frames, written from the documentation (not from the code)."""
import re

WHO = {
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
    "1001", "1004", "1013", "1018",
}  # fmt: skip

_FRAME = re.compile(r"\*[0-9#*]*##", re.ASCII)


def is_frame(s):
    """A frame is `*`, then `*`, digits and `#`, then `##`, with no other `##` inside."""
    return _FRAME.fullmatch(s) is not None and "##" not in s[:-2]


def classify(s):
    """(kind, fields) of a frame; kind None: a shape the documentation does not define (not judged)."""
    body = s[1:-2]
    if body.endswith("#"):
        return None, None  # `###`: the end of the last tag is ambiguous
    t = body.split("*")
    if t == ["#", "1"]:
        return "ACK", {}
    if t == ["#", "0"]:
        return "NACK", {}
    if t[0][:1] == "#":
        who = t[0][1:]
        if who == "" or "#" in who:
            if len(t) in (2, 3) or len(t) > 3:
                return ("GENERIC", {}) if who not in WHO else (None, None)
            return "GENERIC", {}
        if who not in WHO:
            return "GENERIC", {}
        if len(t) == 1:
            return "GENERIC", {}
        if len(t) == 2:
            return "STATUS REQUEST", {"who": who, "where": t[1]}
        dim = t[2]
        if dim == "" or dim == "#" or dim.startswith("##"):
            return None, None
        if dim[0] == "#":
            return "DIMENSION WRITING", {"who": who, "where": t[1], "dimension": dim[1:], "values": t[3:]}
        if len(t) == 3:
            return "DIMENSION REQUEST", {"who": who, "where": t[1], "dimension": dim}
        return "DIMENSION RESPONSE", {"who": who, "where": t[1], "dimension": dim, "values": t[3:]}
    if len(t) == 3 and t[0] in WHO:
        return "NORMAL", {"who": t[0], "what": t[1], "where": t[2]}
    return "GENERIC", {}


def tag_parts(s):
    p = s.split("#")
    return p[0], p[1:]
