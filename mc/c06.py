"""C06: tags accept exactly the protocol alphabet and decompose without loss."""
import itertools

from .core import Violation
from .grammar import WHO
from pyown.exceptions import InvalidTag, OWNException, ParseError
from pyown.tags import Dimension, Value, What, Where, Who
from pyown.tags.base import Tag, TagWithParameters, is_valid_tag
from pyown.tags.where import WhereType

ASSUMPTIONS = [
    "WHERE values outside the documented address forms are not judged by the classification",
]

PLAIN = [Tag, Value]
PARAM = [TagWithParameters, What, Where, Dimension]
ALPHABET = set("0123456789#")


def named(e, text):
    if str(e.tag) != str(text):
        raise Violation(f"the error of {text!r} names {e.tag!r}")
    if not isinstance(e, ParseError) or not isinstance(e, OWNException):
        raise Violation(f"{type(e).__mro__} is not a documented error")


def judge(s):
    ok = set(s) <= ALPHABET
    if is_valid_tag(s) is not ok:
        raise Violation(f"is_valid_tag({s!r}) is {not ok}")
    for cls in PLAIN + PARAM:
        try:
            t = cls(s)
        except InvalidTag as e:
            if ok:
                raise Violation(f"{cls.__name__}({s!r}) refused")
            named(e, s)
            continue
        if not ok:
            raise Violation(f"{cls.__name__}({s!r}) accepted")
        if t.string != s or str(t) != s:
            raise Violation(f"{cls.__name__}({s!r}) has text {t.string!r} / {str(t)!r}")
        if cls in PARAM:
            parts = s.split("#")
            if t.tag != parts[0] or list(t.parameters) != parts[1:]:
                raise Violation(f"{cls.__name__}({s!r}) decomposed in {t.tag!r} {t.parameters!r}")
        else:
            if t.tag != (s[1:] if s[:1] == "#" else s):
                raise Violation(f"{cls.__name__}({s!r}).tag is {t.tag!r}")
            if t.parameters is not None:
                raise Violation(f"{cls.__name__}({s!r}).parameters is {t.parameters!r}")
    return ok


def words(rep, alphabet, length, part, parts):
    n = 0
    for i, w in enumerate(itertools.product(alphabet, repeat=length)):
        if i % parts == part:
            judge("".join(w))
            n += 1
    rep.count(states=n, transitions=n * 7, traces=n)


def characters(rep, lo, hi):
    """Every Unicode character, alone and inside a tag."""
    n = 0
    for cp in range(lo, hi):
        c = chr(cp)
        for s in (c, "1" + c, c + "1", "1#" + c + "2"):
            ok = c in ALPHABET
            if is_valid_tag(s) is not ok:
                raise Violation(f"is_valid_tag({s!r}) is {not ok}")
            n += 1
        for cls in (Where, Value):
            try:
                cls("1" + c)
                got = True
            except InvalidTag:
                got = False
            if got is not (c in ALPHABET):
                raise Violation(f"{cls.__name__}({'1' + c!r}) accepted: {got}")
    rep.count(states=hi - lo, transitions=n, traces=n)


def integers(rep, lo, hi):
    for i in range(lo, hi):
        for cls in PLAIN + PARAM:
            try:
                t = cls(i)
            except InvalidTag as e:
                if i >= 0:
                    raise Violation(f"{cls.__name__}({i}) refused")
                named(e, i)
                continue
            if i < 0:
                raise Violation(f"{cls.__name__}({i}) accepted")
            if t.string != str(i) or t != i or t != str(i) or t == i + 1:
                raise Violation(f"{cls.__name__}({i}) is {t!r}")
    rep.count(states=hi - lo, transitions=(hi - lo) * 6, traces=hi - lo)


PARAMS = ["", "0", "1", "12", "255", "007", "1#2", "#", 0, 1, 12, 255, 65535]
BAD = ["a", " ", "-1", "1.5", "1*2", "*", -1, -255, "\n", "é", "٣"]


def with_parameter(rep, s):
    for cls in PLAIN + PARAM:
        t = cls(s)
        for p in PARAMS:
            r = t.with_parameter(p)
            if str(r) != f"{s}#{p}" or r.string != f"{s}#{p}":
                raise Violation(f"{cls.__name__}({s!r}).with_parameter({p!r}) is {str(r)!r}")
            if t.string != s:
                raise Violation(f"with_parameter changed {s!r} into {t.string!r}")
            if cls in PARAM:
                if type(r) is not cls:
                    raise Violation(f"{cls.__name__}.with_parameter returns a {type(r).__name__}")
            if list(r.parameters) != f"{s}#{p}".split("#")[1:] or r.tag != f"{s}#{p}".split("#")[0]:
                raise Violation(f"{str(r)!r} decomposed in {r.tag!r} {r.parameters!r}")
            for q in PARAMS:
                if str(r.with_parameter(q)) != f"{s}#{p}#{q}":
                    raise Violation(f"{str(r)!r}.with_parameter({q!r}) is {str(r.with_parameter(q))!r}")
        for p in BAD:
            try:
                r = t.with_parameter(p)
            except InvalidTag:
                continue
            raise Violation(f"{cls.__name__}({s!r}).with_parameter({p!r}) accepted as {str(r)!r}")
    # a long chain
    t = What(s)
    want = s
    for i in range(300):
        t = t.with_parameter(i)
        want += f"#{i}"
        if str(t) != want or len(t.parameters) != want.count("#"):
            raise Violation(f"chain of parameters broken at {i}: {str(t)!r}")
    rep.count(states=len(PARAMS) ** 2, transitions=6 * len(PARAMS) * (len(PARAMS) + 1), traces=6)


INTS = [*range(0, 130), 255, 999, 1000, -1, -10, int("123456789" * 10)]


def pairs(rep, texts):
    """Equality and hashes over all pairs of texts and classes."""
    n = 0
    classes = PLAIN + PARAM
    objs = [(c, s, c(s)) for s in texts for c in classes]
    for c1, s1, a in objs:
        for c2, s2, b in objs:
            want = s1 == s2
            if (a == b) is not want or (a != b) is want:
                raise Violation(f"{c1.__name__}({s1!r}) == {c2.__name__}({s2!r}) is {a == b}")
            if want and hash(a) != hash(b):
                raise Violation(f"{c1.__name__}({s1!r}) and {c2.__name__}({s2!r}) have different hashes")
            n += 1
        for s2 in texts:
            if (a == s2) is not (s1 == s2) or (a != s2) is (s1 == s2):
                raise Violation(f"{c1.__name__}({s1!r}) == {s2!r} is {a == s2}")
        for i in INTS:
            if (a == i) is not (s1 == str(i)) or (a != i) is (s1 == str(i)):
                raise Violation(f"{c1.__name__}({s1!r}) == {i} is {a == i}")
        if a == None or a == 1.5 or a == ["1"]:  # noqa: E711
            raise Violation(f"{c1.__name__}({s1!r}) is equal to something that is not a tag")
    rep.count(states=len(objs), transitions=n, traces=n)


def who_code(rep, s):
    try:
        w = Who(s)
    except (ValueError, InvalidTag, KeyError):
        if s in WHO:
            raise Violation(f"Who({s!r}) refused")
        return
    if s not in WHO:
        raise Violation(f"Who({s!r}) accepted as {w!r}")
    if str(w) != s or w.string != s or w.tag != s or w != s or w.value != s:
        raise Violation(f"Who({s!r}) has text {str(w)!r} {w.string!r} {w.tag!r}")
    if w is not Who(s) or hash(w) != hash(Who(s)):
        raise Violation(f"Who({s!r}) is not stable")
    if f"{w}" != s:
        raise Violation(f"Who({s!r}) is formatted as {f'{w}'!r}")
    if not isinstance(w.name, str) or not w.name.strip():
        raise Violation(f"Who({s!r}) has no description: {w.name!r}")
    for other in WHO:
        if (w == Who(other)) is not (s == other):
            raise Violation(f"Who({s!r}) == Who({other!r}) is {w == Who(other)}")


def who_codes(rep, lo, hi):
    n = 0
    for i in range(lo, hi):
        for s in {str(i), f"{i:02d}", f"{i:03d}", f"{i:04d}", f"#{i}", f"{i}#", f"{i}#1"}:
            who_code(rep, s)
            n += 1
    rep.count(states=n, transitions=n, traces=n)


def who_all(rep):
    if {str(w) for w in Who} != WHO or len(list(Who)) != len(WHO):
        raise Violation(f"the WHO codes are {sorted(str(w) for w in Who)}")
    for s in ["", "-1", "a", " 1", "1 ", "1.0", "+1", "１"]:
        who_code(rep, s)
    names = [w.name for w in Who]
    if len(set(names)) != len(names):
        raise Violation("two WHO codes have the same description")
    rep.count(states=len(WHO), transitions=8, traces=8)


def documented_where():
    yield "0", WhereType.GENERAL
    for a in ["00", *[str(i) for i in range(1, 10)], "100"]:
        yield a, WhereType.AMBIENT
    for pl in range(1, 16):
        yield f"00{pl:02d}", WhereType.LIGHT_POINT
        yield f"10{pl:02d}", WhereType.LIGHT_POINT
    for a in range(1, 10):
        for pl in range(1, 10):
            yield f"{a}{pl}", WhereType.LIGHT_POINT
        for pl in range(10, 16):
            yield f"0{a}{pl}", WhereType.LIGHT_POINT
    for g in range(1, 256):
        yield f"#{g}", WhereType.GROUP
    for i in range(0, 16):
        for lvl in range(0, 10):
            yield f"#{lvl}#{i:02d}", WhereType.LOCAL_BUS


def where_type(rep, s, want):
    got = Where(s).type
    if got is not WhereType[want]:
        raise Violation(f"Where({s!r}).type is {got}, expected {want}")
    rep.count(states=1, transitions=1, traces=1)


def bus_suffix(rep, s, want):
    """The address followed by its bus (#4#interface) is the same kind of address."""
    for i in range(1, 16):
        w = f"{s}#4#{i:02d}"
        got = Where(w).type
        if got is not WhereType.LIGHT_POINT:
            raise Violation(f"Where({w!r}).type is {got}, expected LIGHT_POINT")
    rep.count(states=15, transitions=15, traces=15)


def run(rep, tier):
    thorough = tier == "thorough"
    jobs = []
    for length in range(0, 7 if thorough else 6):
        for p in range(8 if length > 3 else 1):
            jobs.append(lambda r, a=("059#", length, p, 8 if length > 3 else 1): r.call(words, *a, limit=600))
            jobs.append(lambda r, a=("0#* aé٣", min(length, 5), p, 8 if length > 3 else 1): r.call(words, *a, limit=600))
    jobs.append(lambda r: r.call(words, "0123456789#", 4, 0, 1, limit=600))
    jobs.append(lambda r: r.call(words, "0123456789#", 3, 0, 1, limit=600))
    top = 0x110000
    for lo in range(0, top, 0x8000):
        jobs.append(lambda r, a=(lo, lo + 0x8000): r.call(characters, *a, limit=300))
    jobs.append(lambda r: r.call(integers, -300, 20000, limit=300))
    for s in ["", "0", "1", "12", "#1", "1#2", "511", "#", "1#", "11#4#01"]:
        jobs.append(lambda r, s=s: r.call(with_parameter, s, limit=300))
    texts = ["".join(w) for n in range(0, 4) for w in itertools.product("01#", repeat=n)] + ["01", "010", "123456789" * 10]
    jobs.append(lambda r: r.call(pairs, texts, limit=300))
    for lo in range(0, 20000 if thorough else 12000, 2000):
        jobs.append(lambda r, a=(lo, lo + 2000): r.call(who_codes, *a, limit=300))
    jobs.append(lambda r: r.call(who_all))
    doc = [(s, t.name) for s, t in documented_where()]
    jobs.append(lambda r: r.each(where_type, doc))
    jobs.append(lambda r: r.each(bus_suffix, [(s, t) for s, t in doc if t == "LIGHT_POINT"]))
    rep.parallel(jobs)
    rep.sample({"where": "0115#4#01", "type": "LIGHT_POINT"})
    rep.sample({"tag": "1#2##", "value": "1", "parameters": ["2", "", ""]})
    rep.cover("documented_addresses", len(doc))
