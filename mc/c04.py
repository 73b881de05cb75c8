"""C04: a message built from tags is a value that survives the wire."""
import copy
import itertools
import pickle  # noqa: F401

from .core import Violation
from .grammar import WHO
from .util import WHO_CODES
from pyown.messages import (
    ACK,
    NACK,
    BaseMessage,
    DimensionRequest,
    DimensionResponse,
    DimensionWriting,
    GenericMessage,
    MessageType,
    NormalMessage,
    StatusRequest,
    parse_message,
)
from pyown.tags import Dimension, Value, What, Where, Who

ASSUMPTIONS = [
    "generic messages whose tags spell a documented kind are re-read as that kind: only their text is compared",
    "tags ending in '#' in last position are excluded (ambiguous terminator)",
    "the private attributes of messages and tags are not tampered with",
]

KINDS = ["NORMAL", "STATUS REQUEST", "DIMENSION REQUEST", "DIMENSION WRITING", "DIMENSION RESPONSE"]


def build(kind, f):
    """(message, expected text) from a JSON description."""
    if kind == "ACK":
        return ACK(), "*#*1##"
    if kind == "NACK":
        return NACK(), "*#*0##"
    if kind == "GENERIC":
        return GenericMessage(list(f)), "*" + "*".join(f) + "##"
    who = Who(f[0])
    if kind == "NORMAL":
        return NormalMessage((who, What(f[1]), Where(f[2]))), f"*{f[0]}*{f[1]}*{f[2]}##"
    if kind == "STATUS REQUEST":
        return StatusRequest((who, Where(f[1]))), f"*#{f[0]}*{f[1]}##"
    if kind == "DIMENSION REQUEST":
        return DimensionRequest((who, Where(f[1]), Dimension(f[2]))), f"*#{f[0]}*{f[1]}*{f[2]}##"
    vals = tuple(Value(v) for v in f[3:])
    tail = "".join("*" + str(v) for v in f[3:]) + "##"
    if kind == "DIMENSION WRITING":
        return DimensionWriting((who, Where(f[1]), Dimension(f[2]), *vals)), f"*#{f[0]}*{f[1]}*#{f[2]}" + tail
    return DimensionResponse((who, Where(f[1]), Dimension(f[2]), *vals)), f"*#{f[0]}*{f[1]}*{f[2]}" + tail


def fields(m):
    out = [str(t) for t in m.tags]
    for name in ("who", "what", "where", "dimension"):
        if hasattr(m, name):
            x = getattr(m, name)
            out.append((name, None if x is None else str(x)))
    if hasattr(m, "values"):
        out.append(("values", [str(v) for v in m.values]))
    return out


def want_fields(kind, f):
    f = [str(x) for x in f]
    if kind == "ACK":
        f = ["#", "1"]
    if kind == "NACK":
        f = ["#", "0"]
    out = list(f)
    d = {
        "NORMAL": ["who", "what", "where"],
        "STATUS REQUEST": ["who", "where"],
        "DIMENSION REQUEST": ["who", "where", "dimension"],
        "DIMENSION WRITING": ["who", "where", "dimension"],
        "DIMENSION RESPONSE": ["who", "where", "dimension"],
    }.get(kind)
    named = dict(zip(d, f)) if d else {"who": None, "where": None}
    for name in ("who", "what", "where", "dimension"):
        if name in named:
            out.append((name, named[name]))
    if kind in ("DIMENSION WRITING", "DIMENSION RESPONSE"):
        out.append(("values", f[3:]))
    return out


def roundtrip(rep, kind, f):
    m, text = build(kind, f)
    if m.message != text or str(m) != text or m.bytes != text.encode():
        raise Violation(f"{kind} {f}: serialised as {m.message!r}, expected {text!r}")
    if m.type != kind or not isinstance(m.type, MessageType):
        raise Violation(f"{kind} {f}: type {m.type!r}")
    if fields(m) != want_fields(kind, f):
        raise Violation(f"{kind} {f}: fields {fields(m)}, expected {want_fields(kind, f)}")
    p = parse_message(text)
    if p.message != text:
        raise Violation(f"{text!r} read back as {p.message!r}")
    if p.type == m.type or kind != "GENERIC":
        if not (p == m and m == p) or p != m or m != p or hash(p) != hash(m) or fields(p) != fields(m):
            raise Violation(f"{text!r} read back as a different message {p!r}")
        if p.type != m.type or type(p) is not type(m):
            raise Violation(f"{text!r} read back as {p.type}")
    elif p == m or m == p:
        raise Violation(f"{text!r}: messages of different kind are equal")
    if {m: 1}.get(p if p.type == m.type else m) != 1:
        raise Violation(f"{text!r}: not usable as a dictionary key")
    for other in (text, text.encode(), None, 1, m.tags):
        if m == other or not (m != other):
            raise Violation(f"{text!r} is equal to {other!r}")
    # aliasing: nothing done with exchanged containers changes the message
    before = (m.message, hash(m), fields(m))
    t = m.tags
    if isinstance(t, list):
        t.append("9")
        t[0] = "5"
        t.reverse()
        del t[:]
    for name in ("values",):
        if hasattr(m, name):
            v = getattr(m, name)
            if isinstance(v, list):
                v.append(Value("9"))
                v[0] = Value("8")
    for x in list(m.tags):
        if getattr(x, "parameters", None):
            x.parameters.append("77")
    if (m.message, hash(m), fields(m)) != before or m != build(kind, f)[0]:
        raise Violation(f"{text!r}: changed through the containers it returned into {m.message!r}")
    if kind == "GENERIC":
        own = list(f)
        for maker in (GenericMessage, GenericMessage.parse):
            src = list(f)
            g = maker(src)
            h = hash(g)
            src.append("4")
            src[0] = "3"
            if g.message != text or hash(g) != h or [str(x) for x in g.tags] != own:
                raise Violation(f"{text!r}: changed by the caller's list into {g.message!r}")
            pt = parse_message(text)
            pt.tags[:] if isinstance(pt.tags, list) else None
    c = copy.deepcopy(m)
    if c != m or hash(c) != hash(m):
        raise Violation(f"{text!r}: a copy is different")
    rep.count(states=1, transitions=8, traces=1)


TAGS = ["", "0", "1", "12", "0115", "#1", "#255", "11#4#01", "1000#2", "7#0", "#1#2#3", "1#2"]
DIMS = ["0", "1", "12", "57", "72#1", "511#4#9", "1200#1", "52#21#3"]


def domain(small=False):
    out = [("ACK", []), ("NACK", [])]
    whos = ["1", "13", "1018"] if small else WHO_CODES
    tags = ["", "0", "12", "#1", "11#4#01"] if small else TAGS
    dims = ["0", "1", "72#1"] if small else DIMS
    for who in whos:
        for a in tags:
            out.append(("STATUS REQUEST", [who, a]))
            for b in tags:
                out.append(("NORMAL", [who, a, b]))
            for d in dims:
                out.append(("DIMENSION REQUEST", [who, a, d]))
                vals = [[], ["0"], ["1", "2"], [""], ["12", "", "3"]] if small else [
                    [], ["0"], ["1", "2"], ["2", "1"], [""], ["12", "", "3"], ["1", "2", "3", "4", "5", "6", "7", "8"],
                    ["#1", "4#5"],
                ]  # fmt: skip
                for v in vals:
                    out.append(("DIMENSION WRITING", [who, a, d, *v]))
                    if v:
                        out.append(("DIMENSION RESPONSE", [who, a, d, *v]))
    gens = [["99", "1"], ["98", "2"], ["#603356072"], ["7", "120"], ["77", "1", "2"], ["5"], ["1", "1", "11"],
            ["#1", "11"], ["#1", "11", "1"], ["#1", "11", "#1", "4"], ["#1", "11", "1", "4"], ["#", "1"], ["1", "1", "11", "4"],
            ["#01", "02"], ["", "", ""], ["0"] * 20]  # fmt: skip
    out += [("GENERIC", g) for g in gens]
    return out


def pairs(rep, lo, hi):
    """All ordered pairs with the first member in [lo, hi)."""
    dom = domain(small=True)
    ms = [build(k, f)[0] for k, f in dom]
    key = [(k, tuple(f)) for k, f in dom]
    n = 0
    for i in range(lo, min(hi, len(ms))):
        for j in range(len(ms)):
            a, b = ms[i], ms[j]
            want = key[i] == key[j]
            if (a == b) is not want or (a != b) is want:
                raise Violation(f"{dom[i]} == {dom[j]} is {a == b}")
            if want and hash(a) != hash(b):
                raise Violation(f"{dom[i]}: equal messages with different hashes")
            n += 1
    twin = [build(k, f)[0] for k, f in dom[lo:hi]]
    for a, b in zip(ms[lo:hi], twin):
        if a != b or hash(a) != hash(b):
            raise Violation(f"two messages built from the same tags differ: {a!r} {b!r}")
    rep.count(states=max(0, min(hi, len(ms)) - lo), transitions=n, traces=len(twin))


def run(rep, tier):
    thorough = tier == "thorough"
    dom = domain()
    # structural sizes
    for n in (3, 10, 50, 300, 1000):
        for who in ("1", "18"):
            v = [str(i) for i in range(n)]
            dom.append(("DIMENSION WRITING", [who, "12", "5", *v]))
            dom.append(("DIMENSION RESPONSE", [who, "12", "5", *v]))
            dom.append(("DIMENSION REQUEST", [who, "12", "5#" + "#".join(v)]))
            dom.append(("NORMAL", [who, "5#" + "#".join(v), "12#" + "#".join(v)]))
            dom.append(("STATUS REQUEST", [who, "12#" + "#".join(v)]))
            dom.append(("GENERIC", [who, *v]))
    # every small value as integer and as string
    for i in range(0, 2000 if thorough else 400):
        dom.append(("DIMENSION WRITING", ["1", "12", "1", i, str(i)]))
        dom.append(("NORMAL", ["1", str(i), str(i)]))
    parts = 8
    rep.parallel([lambda r, p=p: r.each(roundtrip, dom[p::parts], limit=60) for p in range(parts)])
    n = len(domain(small=True))
    step = max(1, n // 16)
    rep.parallel([lambda r, lo=lo: r.call(pairs, lo, lo + step, limit=300) for lo in range(0, n, step)])
    # generic messages over the small alphabet
    words = ["", "1", "#1", "0", "#", "5#2"]
    gen = [("GENERIC", list(w)) for k in (1, 2, 3, 4) for w in itertools.product(words, repeat=k) if not w[-1].endswith("#")]
    rep.each(roundtrip, gen)
    rep.sample({"pairs_of_messages": n * n, "example": str(build(*dom[100])[1])})
