"""C23: energy measures are decoded exactly, for requests and for events."""
import datetime as dt

from .cmds import run_events, run_session
from .core import Violation
from .partial import pairs_of, registrations
from .util import *  # noqa: F401,F403
from .util import ACK
from pyown.items.energy import ActuatorStatus, EnergyManagement

ASSUMPTIONS = [
    "measures and counters are decimal numbers without sign; whether a measure is an int or a float is not claimed",
    "the sixth value of the actuator information is 1 (advanced) or 2 (basic)",
]

WHERES = ["51", "5255", "71#0", "7255#0", "599"]

U16 = sorted({0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 12345, 32767, 32768, 65534, 65535})
U32 = sorted({*U16, *(2**k for k in range(33)), *(2**k - 1 for k in range(33)), *(10**k for k in range(10)), *(10**k - 1 for k in range(1, 10))})

REQ = {"113": ("get_active_power", "power"), "51": ("get_energy_unit_totalizer", "unit_total"), "53": ("get_partial_totalizer_current_month", "partial_month"), "54": ("get_partial_totalizer_current_day", "partial_day"), "73": ("get_differential_current_level", "diff")}  # fmt: skip


def norm(args):
    return [float(x) if type(x) in (int, float) else x for x in args]


def actuator(m):
    v = [m >> i & 1 for i in range(6)]
    vals = [str(x) for x in v[:5]] + ["1" if v[5] else "2"]
    st = ActuatorStatus(disabled=bool(v[0]), forcing=bool(v[1]), threshold=bool(v[2]), protection=bool(v[3]), phase=bool(v[4]), advanced=bool(v[5]))
    return vals, st


def resets(full):
    """(values of the frame, date of the reset, energy) of a totalizer."""
    lo = dt.date(2000, 1, 1).toordinal()
    for k in range(0, 36525, 1 if full else 11):
        d = dt.date.fromordinal(lo + k)
        mi = (k * 997) % 1440
        e = U32[k % len(U32)]
        t = dt.datetime(d.year, d.month, d.day, mi // 60, mi % 60)
        yield [str(e), f"{d.day:02d}", f"{d.month:02d}", str(d.year), f"{t.hour:02d}", f"{t.minute:02d}"], t, float(e)
    for mi in range(1440):
        t = dt.datetime(2021, 4, 9, mi // 60, mi % 60)
        yield ["77", "9", "4", "2021", str(t.hour), str(t.minute)], t, 77.0
    for e in U32:
        yield [str(e), "1", "2", "2023", "4", "5"], dt.datetime(2023, 2, 1, 4, 5), float(e)


def space(name, full):
    """-> (call or None, dimension, values, result of the request, kind of event, arguments of the event)"""
    v32 = sorted({*U32, *range(70000)}) if full else U32
    if name in REQ:
        method, kind = REQ[name]
        for v in v32 if name != "73" else range(1, 4):
            for s in {str(v), f"{v:05d}"} if name != "73" else {str(v)}:
                yield (method, ()), name, [s], (float(v),), kind, [float(v)]
    elif name == "52":
        for y in range(100):
            for m in range(1, 13):
                for v in (U32[(y * 12 + m) % len(U32)], 4321):
                    for ys in {str(y), f"{y:02d}"}:
                        call = ("get_energy_unit_per_month", (m, y)) if ys == str(y) else None
                        yield call, f"52#{ys}#{m}", [str(v)], (float(v),), "unit_month", [float(m), float(y), float(v)]
        for v in v32:
            yield ("get_energy_unit_per_month", (3, 21)), "52#21#3", [str(v)], (float(v),), "unit_month", [3.0, 21.0, float(v)]
    elif name == "71":
        for m in range(64):
            vals, st = actuator(m)
            yield ("get_actuators_info", ()), "71", vals, (st,), "actuator", [st]
    elif name == "72":
        for n in (1, 2):
            for vals, t, e in resets(full):
                yield ("get_totalizers", (n,)), f"72#{n}", vals, (t, e), "totalizer", [float(n), t, e]
    elif name == "511":
        for m in range(1, 13):
            for d in range(1, 32):
                for h in range(1, 26):
                    v = U16[(m * 961 + d * 31 + h) % len(U16)]
                    yield None, f"511#{m}#{d}", [str(h), str(v)], None, "daily", [float(d), float(m), float(h), float(v)]
        for v in range(65536) if full else U16:
            yield None, "511#4#9", ["7", str(v)], None, "daily", [9.0, 4.0, 7.0, float(v)]
    elif name == "512":
        for m in range(1, 13):
            for h in range(1, 26):
                for v in range(m, 65536, 257) if full else U16:
                    yield None, f"512#{m}", [str(h), str(v)], None, "month_avg", [float(m), float(h), float(v)]
    else:
        kind = {"513": "month_cur", "514": "month_last"}[name]
        for m in range(1, 13):
            for d in range(1, 33):
                for v in U32 if full else U32[(m * 32 + d) % 7 :: 7]:
                    yield None, f"{name}#{m}", [str(d), str(v)], None, kind, [float(m), float(d), float(v)]


NAMES = ["113", "51", "53", "54", "73", "52", "71", "72", "511", "512", "513", "514"]


def requests(rep, name, where, full, part, parts):
    table = {}

    def answer(f):
        a = table.get(f)
        return [ACK] if a is None else [a + ACK] if len(a) % 2 else [a[:7], a[7:], ACK]

    n = 0

    async def body(c, s):
        nonlocal n
        item = EnergyManagement(c, where)
        for i, (call, dim, vals, res, _, _) in enumerate(space(name, full)):
            if i % parts != part or call is None:
                continue
            frame = f"*#18*{where}*{dim}##"
            table.clear()
            table[frame] = f"*#18*{where}*{dim}*{'*'.join(vals)}##"
            what = f"{call[0]}{call[1]} answered {table[frame]}"
            s.frames.clear()
            try:
                got = await must(getattr(item, call[0])(*call[1]), what)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"{what} raised {type(e).__name__}: {e}; sent {s.frames}")
            g = norm(got if isinstance(got, tuple) else (got,))
            if g != list(res):
                raise Violation(f"{what} returned {got!r}, expected {res}")
            n += 1

    run_session(body, answer=answer)
    rep.count(states=n, transitions=n, traces=n)
    rep.cover("requests", n)


def events(rep, name, where, full, part, parts, per_segment):
    ev = []
    for i, (_, dim, vals, _, kind, args) in enumerate(space(name, full)):
        if i % parts == part:
            ev.append((f"*#18*{where}*{dim}*{'*'.join(vals)}##", f"energy_{kind}", args))
    if ev:
        run_events(rep, ev, norm, per_segment)


def mixed(rep, where, full):
    """Events of all the quantities one after the other: nothing is carried over from one to the next."""
    last = [list(space(n, False))[3:40:9] for n in NAMES]
    ev = []
    for a in range(len(NAMES)):
        for b in range(len(NAMES)):
            for k in (a, b):
                _, dim, vals, _, kind, args = last[k][(a + 2 * b) % len(last[k])] if last[k] else list(space(NAMES[k], False))[0]
                ev.append((f"*#18*{where}*{dim}*{'*'.join(vals)}##", f"energy_{kind}", args))
    for per in (1, 2, 5):
        run_events(rep, ev, norm, per)


def mixed_requests(rep, where):
    """Requests of all the quantities in every order with one item: nothing is carried over from one to the next."""
    table = {}
    plan = [[x for x in list(space(n, False))[3:40:9] or list(space(n, False)) if x[0]] for n in NAMES[:8]]
    n = 0

    async def body(c, s):
        nonlocal n
        item = EnergyManagement(c, where)
        for a in range(len(plan)):
            for b in range(len(plan)):
                for i, k in enumerate((a, b, a)):
                    call, dim, vals, res, _, _ = plan[k][(a + 2 * b + i) % len(plan[k])]
                    frame = f"*#18*{where}*{dim}##"
                    table.clear()
                    table[frame] = f"*#18*{where}*{dim}*{'*'.join(vals)}##" + ACK
                    got = await must(getattr(item, call[0])(*call[1]), call[0])
                    g = norm(got if isinstance(got, tuple) else (got,))
                    if g != list(res):
                        raise Violation(f"{call[0]}{call[1]} answered {table[frame]} returned {got!r}, expected {res}")
                    n += 1

    run_session(body, answer=lambda f: [table.get(f, ACK)])
    rep.count(states=n, transitions=n, traces=n)
    rep.cover("mixed_requests", n)


def zoned(rep, zone, name, *args):
    """The same, the program running in another zone."""
    with local_zone(zone):
        globals()[name](rep, *args)
    rep.cover("local_zone_" + zone.split(",")[0])


def run(rep, tier):
    full = tier == "thorough"
    # first: these histories need processes without registered callbacks
    rep.parallel_each(registrations, lambda: ((ops,) for ops in pairs_of(("energy",))))
    ws = WHERES if full else ["51", "7255#0"]
    parts = 4 if full else 2
    rep.parallel_each(requests, lambda: ((n, w, full, p, parts) for n in NAMES[:8] for w in ws for p in range(parts)), limit=600)
    rep.parallel_each(events, lambda: ((n, w, full, p, parts, 40) for n in NAMES for w in ws for p in range(parts)), limit=600)
    rep.parallel_each(events, lambda: ((n, w, False, 0, 5, 1) for n in NAMES for w in WHERES), limit=600)
    rep.parallel_each(mixed_requests, lambda: ((w,) for w in WHERES), limit=600)
    rep.parallel_each(mixed, lambda: ((w, full) for w in WHERES), limit=600)
    rep.parallel_each(zoned, lambda: ((z, "requests", n, "51", False, i, 8) for i, z in enumerate(ZONES) for n in NAMES[:8]), limit=600)
    rep.parallel_each(zoned, lambda: ((z, "events", n, "51", False, i, 8, 10) for i, z in enumerate(ZONES) for n in NAMES), limit=600)
    rep.sample("*#18*51*511#4#9*25*65535## -> on_daily_totalizers_hourly(item, 9, 4, 25, 65535)")
    rep.sample("*#18*71#0*72#2*4500*01*02*2021*03*04## -> totalizer 2, 2021-02-01 03:04, 4500")
    rep.sample("*#18*71#0*71*1*0*1*0*1*2## -> disabled, threshold, phase, basic")
