"""C24: the Stop&Go status tells exactly the bits the device reports."""
import itertools

from .cmds import run_events, run_session
from .core import Violation
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK
from pyown.items.energy import StopGo, StopGoStatus
from pyown.items.energy.enums import DimensionEnergy

ASSUMPTIONS = [
    "the mask is written with 13 binary digits, the last one being bit 1 (open), as documented; individual answers are 0 or 1",
]

FIELDS = [
    "open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off", "check_off",
    "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up",
]  # fmt: skip


def bits(m):
    return "".join(str(m >> i & 1) for i in range(12, -1, -1))


def check(st, want, what):
    if not isinstance(st, StopGoStatus):
        raise Violation(f"{what}: status {st!r}")
    for f in FIELDS:
        if getattr(st, f) is not want.get(f):
            raise Violation(f"{what}: {f} is {getattr(st, f)!r}, reported {want.get(f)!r}")


def mask_status(m):
    return {f: bool(m >> i & 1) for i, f in enumerate(FIELDS)}


async def ask(c, s, where, dim, answers, want, what, split=False, item=None):
    """-> the status returned; `item`: the object used, which may have been used before (default: a new one)."""
    frame = f"*#18*{where}*{dim}##"
    data = "".join(answers)
    s.answer = lambda f: ([data[: len(data) // 2], data[len(data) // 2 :], ACK] if split else [data + ACK]) if f == frame else [ACK]
    s.frames.clear()
    try:
        kw = {} if dim == "250" else {"dim_req": DimensionEnergy(dim)}
        st = await must((item or StopGo(c, where)).request_status(**kw), what)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}; sent {s.frames}")
    if s.frames != [frame]:
        raise Violation(f"{what} sent {s.frames}")
    check(st, want, what)
    return st


def masks(rep, where, part, parts):
    async def body(c, s):
        item, before = StopGo(c, where) if part % 2 else None, None
        for m in range(part, 8192, parts):
            a = f"*#18*{where}*250*{bits(m)}##"
            st = await ask(c, s, where, "250", [a], mask_status(m), f"request_status() answered {a}", m % 3 == 0, item)
            if before is not None:
                check(before[0], mask_status(before[1]), f"status of {bits(before[1])} after another request")
            before = st, m

    run_session(body)
    n = len(range(part, 8192, parts))
    rep.count(states=n, transitions=n, traces=n)
    rep.cover("masks_answered", n)


def mask_events(rep, where, part, parts, per):
    ev = []
    for m in range(part, 8192, parts):
        ev.append((f"*#18*{where}*250*{bits(m)}##", "energy_stop_go", [StopGoStatus(**mask_status(m))]))
    run_events(rep, ev, list, per)


def subsets(rep, where, part, parts, order):
    """The device answers with individual statuses: every subset of them, each with 0 or 1."""

    async def body(c, s):
        n = 0
        item, before = StopGo(c, where) if part % 2 else None, None
        for sub in range(8192):
            if sub % parts != part:
                continue
            idx = [i for i in range(13) if sub >> i & 1]
            if order:
                idx.reverse()
            # all 0, all 1, and a value pattern that depends on the subset
            for val in {0, 8191, (sub * 2654435761 >> 7) & 8191}:
                ans = [f"*#18*{where}*{251 + i}*{val >> i & 1}##" for i in idx]
                want = {FIELDS[i]: bool(val >> i & 1) for i in idx}
                st = await ask(c, s, where, "250", ans, want, f"request_status() answered {ans}", sub % 5 == 0, item)
                if before is not None:
                    check(before[0], before[1], f"earlier status {before[1]} after another request")
                before = st, want
                n += 1
        rep.count(states=n, transitions=n, traces=n)
        rep.cover("individual_answers", n)

    run_session(body)


def singles(rep, wheres):
    """Each individual request and answer; then the latest report of a condition is the one told."""

    async def body(c, s):
        n = 0
        for where in wheres:
            for i, v in itertools.product(range(13), (0, 1)):
                a = f"*#18*{where}*{251 + i}*{v}##"
                await ask(c, s, where, str(251 + i), [a], {FIELDS[i]: bool(v)}, f"request_status({251 + i}) answered {a}")
                # the mask and one condition reported after or before it, agreeing or updating it
                for m in (0, 8191, 1 << i, 8191 ^ (1 << i), 0b0101010101010):
                    w = mask_status(m)
                    first = f"*#18*{where}*250*{bits(m)}##"
                    await ask(c, s, where, "250", [first, a], {**w, FIELDS[i]: bool(v)}, f"request_status() answered {first}{a}")
                    await ask(c, s, where, "250", [a, first], w, f"request_status() answered {a}{first}")
                    n += 2
                n += 1
            await ask(c, s, where, "250", [], {}, "request_status() without report")
        rep.count(states=n, transitions=n, traces=n)

    run_session(body)


def reused(rep, where, length, chooser=None):
    """Every sequence of requests made with one item: each status tells what that request was answered."""
    i = 4
    steps = [
        ("250", [f"*#18*{where}*250*{bits(8191)}##"], mask_status(8191)),
        ("250", [f"*#18*{where}*250*{bits(0)}##"], mask_status(0)),
        ("250", [f"*#18*{where}*{251 + i}*1##"], {FIELDS[i]: True}),
        (str(251 + i), [f"*#18*{where}*{251 + i}*0##"], {FIELDS[i]: False}),
        (str(251), [f"*#18*{where}*251*1##"], {FIELDS[0]: True}),
        ("250", [], {}),
    ]

    async def body(c, s):
        item = StopGo(c, where)
        got = []
        for _ in range(length):
            dim, ans, want = steps[chooser.flip(len(steps))]
            got.append((await ask(c, s, where, dim, ans, want, f"request_status({dim}) answered {ans}", item=item), want))
            for st, w in got:
                check(st, w, f"status {w} after {len(got)} requests")

    run_session(body)
    rep.cover("reused_items")


def run(rep, tier):
    full = tier == "thorough"
    ws = ["11", "1127", "164"] if full else ["164"]
    rep.parallel_each(masks, lambda: ((w, p, 8) for w in ws for p in range(8)), limit=600)
    rep.parallel_each(mask_events, lambda: ((w, p, 8, per) for w in ws for p in range(8) for per in ((1, 37) if full else (37,))), limit=600)
    rep.parallel_each(mask_events, lambda: (("11", p, 8 * 7, 1) for p in range(8)), limit=600)
    rep.parallel_each(subsets, lambda: ((w, p, 8, o) for w in ws for p in range(8) for o in ((0, 1) if full else (0,))), limit=600)
    rep.parallel_each(singles, lambda: (([f"1{n}"],) for n in (range(1, 128) if full else (1, 7, 99, 127))), limit=600)
    explore_all(rep, reused, [(w, n) for w in ws for n in range(2, 6 if full else 5)])
    rep.sample("*#18*164*250*0000000000001## -> open only")
    rep.sample("*#18*164*257*1## alone -> self_test_off True, everything else unknown")
