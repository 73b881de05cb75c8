"""C03: parsing keeps every frame intact and classifies it by its documented shape."""
import itertools

from .core import Violation
from .grammar import WHO, classify, is_frame, tag_parts
from .util import FRAMES, WHO_CODES  # noqa: F401
from pyown.exceptions import ParseError
from pyown.messages import (
    ACK,
    NACK,
    DimensionRequest,
    DimensionResponse,
    DimensionWriting,
    GenericMessage,
    MessageType,
    NormalMessage,
    StatusRequest,
    parse_message,
)

ASSUMPTIONS = [
    "frames ending with '###' (ambiguous terminator) and dimension frames with an empty dimension are "
    "checked for integrity only, their kind is not documented",
    "strings with leading or trailing blanks are not judged",
]

CLASSES = {
    "ACK": ACK,
    "NACK": NACK,
    "NORMAL": NormalMessage,
    "STATUS REQUEST": StatusRequest,
    "DIMENSION REQUEST": DimensionRequest,
    "DIMENSION WRITING": DimensionWriting,
    "DIMENSION RESPONSE": DimensionResponse,
    "GENERIC": GenericMessage,
}


def check_tag(got, want, name, s):
    if str(got) != want or got.string != want:
        raise Violation(f"{s!r}: {name} is {str(got)!r}, expected {want!r}")
    tag, params = tag_parts(want)
    if got.tag != tag or list(got.parameters) != params:
        raise Violation(f"{s!r}: {name} has {got.tag!r} {got.parameters!r}, expected {tag!r} {params!r}")


def judge(s):
    try:
        m = parse_message(s)
    except ParseError as e:
        if is_frame(s):
            kind, _ = classify(s)
            if kind is not None:
                raise Violation(f"{s!r}: well-formed frame rejected ({type(e).__name__})")
        return "rejected"
    if not is_frame(s):
        raise Violation(f"{s!r}: malformed string accepted as {m!r}")
    if m.message != s or str(m) != s or m.bytes != s.encode():
        raise Violation(f"{s!r}: changed into {m.message!r} / {m.bytes!r}")
    kind, f = classify(s)
    if kind is None:
        return "undefined"
    if m.type != kind or not isinstance(m, CLASSES[kind]) or not isinstance(m.type, MessageType):
        raise Violation(f"{s!r}: classified as {m.type} ({type(m).__name__}), expected {kind}")
    if kind == "DIMENSION WRITING" and isinstance(m, DimensionResponse):
        raise Violation(f"{s!r}: a writing is presented as a response")
    tags = [str(x) for x in m.tags]
    if kind == "GENERIC":
        if tags != s[1:-2].split("*"):
            raise Violation(f"{s!r}: tags {tags}")
        if m.who is not None or m.where is not None:
            raise Violation(f"{s!r}: a generic message claims WHO {m.who!r} WHERE {m.where!r}")
        return kind
    if kind in ("ACK", "NACK"):
        return kind
    if str(m.who) != f["who"] or m.who.string != f["who"] or m.who != f["who"]:
        raise Violation(f"{s!r}: WHO is {m.who!s}")
    check_tag(m.where, f["where"], "WHERE", s)
    if kind == "NORMAL":
        check_tag(m.what, f["what"], "WHAT", s)
        want = [f["who"], f["what"], f["where"]]
    elif kind == "STATUS REQUEST":
        want = [f["who"], f["where"]]
    else:
        check_tag(m.dimension, f["dimension"], "DIMENSION", s)
        want = [f["who"], f["where"], f["dimension"]]
        if "values" in f:
            vals = [str(v) for v in m.values]
            if vals != f["values"] or [v.string for v in m.values] != f["values"]:
                raise Violation(f"{s!r}: values {vals}, expected {f['values']}")
            want += f["values"]
    if tags != want:
        raise Violation(f"{s!r}: tags {tags}, expected {want}")
    return kind


def words(rep, head, alphabet, length, tail, part, parts):
    """head + every word of the given length + tail."""
    n = 0
    for i, w in enumerate(itertools.product(alphabet, repeat=length)):
        if i % parts == part:
            rep.cover("kind " + judge(head + "".join(w) + tail))
            n += 1
    rep.count(states=n, transitions=n * 6, traces=n)


TAGS = ["", "0", "1", "12", "0115", "#1", "#255", "11#4#01", "1000#2", "5#", "3##"[:2], "7#0", "#1#2#3", "123456789012345"]


def shapes(rep, who, first):
    """Every shape with tags from the pool: 1 to 3 tags after the WHO, plus 0..3 values."""
    n = 0
    for mark in ("", "#"):
        head = "*" + mark + who
        if first == TAGS[0]:
            rep.cover("kind " + judge(head + "##"))
        for tail_len in range(0, 3):
            for rest in itertools.product(TAGS, repeat=tail_len):
                for dm in ("", "#"):
                    t = [head, first]
                    if rest:
                        t += [dm + rest[0], *rest[1:]]
                    elif dm:
                        continue
                    rep.cover("kind " + judge("*".join(t) + "##"))
                    n += 1
    rep.count(states=n, transitions=n * 6, traces=n)


def long_frame(rep, s):
    judge(s)
    rep.count(states=1, transitions=6, traces=1)


def foreign(rep, lo, hi):
    """Every Unicode character in several positions of a frame."""
    n = 0
    for cp in range(lo, hi):
        if 0xD800 <= cp < 0xE000:
            continue
        c = chr(cp)
        for s in ("*1*1*1" + c + "##", "*1*" + c + "*1##", "*#1*1" + c + "*1*2##"):
            judge(s)
            n += 1
        if not c.isspace():
            for s in (c + "*1*1*11##", "*1*1*11##" + c, "*1*1*11#" + c):
                judge(s)
                n += 1
    rep.count(states=n, transitions=n, traces=n)


def run(rep, tier):
    thorough = tier == "thorough"
    jobs = []
    for length in range(0, 10 if thorough else 9):
        parts = 1 if length < 6 else 16
        for p in range(parts):
            jobs.append(lambda r, a=("*", "*#01", length, "##", p, parts): r.call(words, *a, limit=900))
    # every WHO candidate: all numbers up to 4 digits, plain and marked
    for length in range(1, 5):
        for mark in ("", "#"):
            for tail in ("*1*1##", "*1##", "*1*1*1##", "*1*#1*1##", "##"):
                jobs.append(lambda r, a=("*" + mark, "0123456789", length, tail, 0, 1): r.call(words, *a, limit=300))
    # arbitrary strings, not only frames
    for length in range(0, 8 if thorough else 7):
        for p in range(4):
            jobs.append(lambda r, a=("", "*#1a", length, "", p, 4): r.call(words, *a, limit=300))
            jobs.append(lambda r, a=("*1*", "*#1 ", min(length, 5), "##", p, 4): r.call(words, *a, limit=300))
    for who in WHO_CODES + ["9", "12", "99", "98", "1000", "01", "013"]:
        for first in TAGS:
            jobs.append(lambda r, a=(who, first): r.call(shapes, *a, limit=300))
    longs = []
    for n in list(range(4, 40)) + [64, 100, 255, 256, 257, 300, 1000, 1024, 4096]:
        vals = "".join(f"*{i}" for i in range(n))
        pars = "".join(f"#{i}" for i in range(n))
        for who in ("1", "13", "18", "77"):
            longs += [
                f"*#{who}*12*5{vals}##",
                f"*#{who}*12*#5{vals}##",
                f"*#{who}*12#1*5{pars}{vals}##",
                f"*#{who}*12{pars}*#5{pars}{vals}##",
                f"*#{who}*12{pars}*5{pars}##",
                f"*{who}*1{pars}*12{pars}##",
                f"*#{who}*12{pars}##",
                f"*{who}{vals}##",
                f"*#{who}*12*5" + "*1" * n + "##",
                f"*#{who}*12*#5" + "*22" * n + "##",
                f"*#{who}*12*5" + "#1" * n + "##",
                f"*#{who}*12*5" + "#1" * n + "*4##",
                f"*#{who}*12*#5" + "#1" * n + "*4*5##",
                f"*#{who}*12" + "#1" * n + "##",
                f"*{who}*1" + "#2" * n + "*12##",
                f"*{who}*1*12" + "#3" * n + "##",
                f"*{who}*" + "1" * n + "*12##",
                f"*{who}*1*" + "9" * n + "##",
                f"*{who}" + "*1" * n + "##",
                f"*#{who}*12*5*" + "7" * n + "##",
                f"*#{who}*12*5" + "*" * n + "##",
                "*" + "8" * n + "##",
                "*#" + "8" * n + "##",
                f"*{who}*1*1##" * n,
            ]
    jobs.append(lambda r: r.each(long_frame, [(s,) for s in longs + FRAMES], limit=60))
    top = 0x110000 if thorough else 0x3000
    for lo in range(0, top, 0x1000):
        jobs.append(lambda r, a=(lo, lo + 0x1000): r.call(foreign, *a, limit=300))
    if not thorough:
        jobs.append(lambda r: r.call(foreign, 0xFF00, 0x10000))
        jobs.append(lambda r: r.call(foreign, 0x1D7C0, 0x1D800))
    rep.parallel(jobs)
    for s in ("*#18*71#0*72#2*4500*01*02*2021*03*04##", "*#1*12*#1*150*20##", "*77*1*2##"):
        rep.sample({"frame": s, "kind": classify(s)[0]})
