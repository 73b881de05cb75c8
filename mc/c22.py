"""C22: energy addresses are typed and energy commands send the documented frame."""
import datetime as dt
import itertools
import json
import os
import re
import subprocess
import sys

from .cmds import run_session, sends
from .core import VERIF, CheckError, Violation
from .util import *  # noqa: F401,F403
from .util import ACK
from pyown.exceptions import InvalidTag
from pyown.items.energy import EnergyManagement, StopGo, TypeEnergy
from pyown.items.energy.enums import DimensionEnergy
from pyown.tags import Where

ASSUMPTIONS = [
    "addresses of a documented form whose number is out of range or has leading zeros, and actuator addresses with further parameters, may be accepted or refused",
    "parameters outside the documented range are not claimed",
    "a year below 10 may be sent with one or two digits",
    "the controlled clock covers datetime.now/today/utcnow, date.today, time.time/time_ns/localtime/gmtime/strftime",
]

VALID = [(re.compile(r"1([1-9]\d*)"), 127, "STOP_GO"), (re.compile(r"5([1-9]\d*)"), 255, "POWER_METER"), (re.compile(r"7([1-9]\d*)#0"), 255, "ACTUATOR")]
MAYBE = re.compile(r"1\d+|5\d+|7\d+#0(#.*)?")


def kind_of(w):
    """The documented type, None if the address is invalid, "?" if unclaimed."""
    for rx, top, name in VALID:
        m = rx.fullmatch(w)
        if m and int(m[1]) <= top:
            return name
    return "?" if MAYBE.fullmatch(w) else None


def one_address(w, kind):
    for form in (w, Where(w)):
        try:
            item = EnergyManagement(None, form)
        except InvalidTag:
            if kind not in ("?", None):
                raise Violation(f"EnergyManagement({form!r}) refused, documented as {kind}")
            item = None
        else:
            if kind is None:
                raise Violation(f"EnergyManagement({form!r}) accepted as {item.get_type()}")
            if kind != "?":
                if item.get_type() is not TypeEnergy[kind]:
                    raise Violation(f"EnergyManagement({form!r}) is {item.get_type()}, documented as {kind}")
                if str(item.where) != w:
                    raise Violation(f"EnergyManagement({form!r}).where is {item.where}")
        try:
            StopGo(None, form)
        except InvalidTag:
            if kind == "STOP_GO":
                raise Violation(f"StopGo({form!r}) refused")
        else:
            if kind != "STOP_GO" and not (kind == "?" and w.startswith("1")):
                raise Violation(f"StopGo({form!r}) accepted")


def addresses(rep, first, length):
    """Every address over digits and '#' with that beginning and length."""
    n = 0
    for rest in itertools.product("0123456789#", repeat=length - len(first)):
        w = first + "".join(rest)
        if w.endswith("#"):
            continue
        one_address(w, kind_of(w))
        n += 1
    rep.count(states=n, transitions=2 * n, traces=2 * n)
    rep.cover("addresses", n)


def documented_addresses(rep):
    ws = [f"1{n}" for n in range(1, 128)] + [f"5{n}" for n in range(1, 256)] + [f"7{n}#0" for n in range(1, 256)]
    for w in ws:
        if kind_of(w) in (None, "?"):
            raise CheckError(w)
        one_address(w, kind_of(w))
    rep.count(states=len(ws), transitions=2 * len(ws), traces=2 * len(ws))


def yy(y):
    return [str(y), f"{y:02d}"] if y < 10 else [str(y)]


def answer(f):
    """A gateway that gives a well-formed answer to every request."""
    if not f.startswith("*#18*") or "*#" in f[2:]:
        return [ACK]
    dim = f[2:-2].split("*")[2]
    vals = {"71": "0*0*0*0*0*1", "72": "12*01*02*2021*03*04", "250": "0" * 13}.get(dim.split("#")[0], "1")
    return [f"{f[:-2]}*{vals}##{ACK}"]


async def one_of(s, call, frames, what):
    s.frames.clear()
    try:
        await must(call, what)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}; sent {s.frames}")
    if len(s.frames) != 1 or s.frames[0] not in frames:
        raise Violation(f"{what} sent {s.frames}, expected {frames}")


def plans(w, full):
    """(method, args, kwargs, acceptable frames) of every command with every value of its range."""
    for m in range(1, 13):
        for d in range(1, 32):
            yield "start_sending_daily_totalizers_hourly", (d, m), {}, [f"*18*57#{m}#{d}*{w}##"]
            yield "start_sending_daily_totalizers_hourly", (), {"month": m, "day": d}, [f"*18*57#{m}#{d}*{w}##"]
        for k, name in (("58", "monthly_average_hourly"), ("59", "monthly_totalizers_current_year"), ("510", "monthly_totalizers_last_year")):
            yield f"start_sending_{name}", (m,), {}, [f"*18*{k}#{m}*{w}##"]
        for y in range(100):
            fr = [f"*#18*{w}*52#{a}#{m}##" for a in yy(y)]
            yield "get_energy_unit_per_month", (m, y), {}, fr
            if full:
                yield "get_energy_unit_per_month", (), {"year": y, "month": m}, fr
    yield "enable_actuator", (), {}, [f"*18*71*{w}##"]
    yield "force_actuator_on", (), {}, [f"*18*73*{w}##"]
    yield "force_actuator_on", (None,), {}, [f"*18*73*{w}##"]
    for t in range(1, 255):
        yield "force_actuator_on", (t,), {}, [f"*18*73#{t}*{w}##"]
    yield "force_actuator_off", (), {}, [f"*18*74*{w}##"]
    for n in (1, 2):
        yield "reset_totalizers", (n,), {}, [f"*18*75#{n}*{w}##"]
        yield "get_totalizers", (n,), {}, [f"*#18*{w}*72#{n}##"]
    for t in range(1, 256):
        yield "start_sending_instant_power", (t,), {}, [f"*#18*{w}*#1200#1*{t}##"]
        yield "start_sending_instant_power", (t, 1), {}, [f"*#18*{w}*#1200#1*{t}##"]
        yield "start_sending_instant_power", (t,), {"power_type": 2}, [f"*#18*{w}*#1200#2*{t}##"]
    yield "stop_sending_instant_power", (), {}, [f"*#18*{w}*#1200#1*0##"]
    yield "stop_sending_instant_power", (1,), {}, [f"*#18*{w}*#1200#1*0##"]
    yield "stop_sending_instant_power", (), {"power_type": 2}, [f"*#18*{w}*#1200#2*0##"]
    for name, k in (
        ("active_power", "113"), ("energy_unit_totalizer", "51"), ("partial_totalizer_current_month", "53"),
        ("partial_totalizer_current_day", "54"), ("actuators_info", "71"), ("differential_current_level", "73"),
    ):  # fmt: skip
        yield f"get_{name}", (), {}, [f"*#18*{w}*{k}##"]


def commands(rep, wheres, full):
    n = 0

    async def body(c, s):
        nonlocal n
        for w in wheres:
            e = EnergyManagement(c, w)
            for method, a, kw, frames in plans(w, full):
                await one_of(s, getattr(e, method)(*a, **kw), frames, f"EnergyManagement({w}).{method}{a}{kw or ''}")
                n += 1

    run_session(body, answer=answer)
    rep.count(states=n, transitions=n, traces=n)
    rep.cover("commands", n)
    rep.cover("command_addresses", len(wheres))


def stop_go(rep, wheres):
    n = 0

    async def body(c, s):
        nonlocal n
        for w in wheres:
            e = StopGo(c, w)
            await sends(s, e.enable_automatic_reset(), f"*18*26*{w}##", f"StopGo({w}).enable_automatic_reset()")
            await sends(s, e.disable_automatic_reset(), f"*18*27*{w}##", f"StopGo({w}).disable_automatic_reset()")
            await sends(s, e.request_status(), f"*#18*{w}*250##", f"StopGo({w}).request_status()")
            for k in range(250, 264):
                d = DimensionEnergy(str(k))
                await sends(s, e.request_status(dim_req=d), f"*#18*{w}*{k}##", f"StopGo({w}).request_status({d!r})")
            n += 17

    run_session(body, answer=answer)
    rep.count(states=n, transitions=n, traces=n)
    rep.cover("stop_go_commands", n)


# -- omitted dates ------------------------------------------------------------------------------------
OMITTED = [
    ("start_sending_daily_totalizers_hourly", [None, None], {}),
    ("start_sending_daily_totalizers_hourly", [17, None], {}),
    ("start_sending_daily_totalizers_hourly", [None, 6], {}),
    ("start_sending_monthly_average_hourly", [None], {}),
    ("start_sending_monthly_totalizers_current_year", [None], {}),
    ("start_sending_monthly_totalizers_last_year", [None], {}),
    ("get_energy_unit_per_month", [], {}),
    ("get_energy_unit_per_month", [None, None], {}),
    ("get_energy_unit_per_month", [6], {}),
    ("get_energy_unit_per_month", [], {"year": 19}),
]


def frames_at(method, args, kw, d):
    a = list(args) + [None, None]
    if method == "start_sending_daily_totalizers_hourly":
        return [f"*18*57#{a[1] or d.month}#{a[0] or d.day}*51##"]
    if method == "get_energy_unit_per_month":
        y = kw.get("year", a[1])
        return [f"*#18*51*52#{x}#{a[0] or d.month}##" for x in yy(d.year % 100 if y is None else y)]
    k = {"start_sending_monthly_average_hourly": "58", "start_sending_monthly_totalizers_current_year": "59", "start_sending_monthly_totalizers_last_year": "510"}[method]
    return [f"*18*{k}#{d.month}*51##"]


def clocked(jobs, tz):
    env = dict(os.environ, TZ=tz, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "mc.fakeclock"], input=json.dumps(jobs), capture_output=True, text=True, cwd=VERIF, env=env, timeout=300)
    if p.returncode != 0:
        raise Violation(f"the commands with omitted dates failed: {p.stderr[-2000:]}")
    return json.loads(p.stdout)


def omitted(rep, offset, days, second):
    """The clock passes from one day to the next at every possible point between two readings of it.

    offset: hours east of UTC of the local zone; second: seconds before midnight of the first instant.
    """
    tz = f"XXX{-offset:+d}"
    zone = dt.timezone(dt.timedelta(hours=offset))
    jobs, want = [], []
    for o in days:
        d0 = dt.date.fromordinal(o)
        d1 = dt.date.fromordinal(o + 1)
        midnight = dt.datetime(d1.year, d1.month, d1.day, tzinfo=zone).timestamp()
        for m, a, kw in OMITTED:
            f0, f1 = frames_at(m, a, kw, d0), frames_at(m, a, kw, d1)
            for k, ok in ((0, f1), (1, f0 + f1), (2, f0 + f1), (3, f0 + f1), (4, f0 + f1), (10**6, f0)):
                jobs.append([m, a, kw, midnight - second, midnight + second - 1, k])
                want.append((d0, ok))
    got = clocked(jobs, tz)
    if len(got) != len(jobs):
        raise CheckError("lost jobs")
    top = 0
    for j, (d0, ok), (frames, reads) in zip(jobs, want, got):
        top = max(top, reads)
        if len(frames) != 1 or frames[0] not in ok:
            at = "before" if j[5] == 10**6 else f"at reading {j[5]} of the clock"
            when = "the day after" if j[5] == 0 else f"{d0}, the day changing {at}" if j[5] != 10**6 else f"{d0}"
            raise Violation(f"{j[0]}{tuple(j[1])}{j[2] or ''} called on {when} (zone {tz}, {d0}) sent {frames}, expected one of {ok}")
    rep.count(states=len(jobs), transitions=len(jobs), traces=len(jobs))
    rep.cover("clock_schedules", len(jobs))
    rep.coverage["clock_readings_max"] = max(top, rep.coverage.get("clock_readings_max", 0))
    if top > 5:
        rep.cover("more_clock_readings_than_explored")


def run(rep, tier):
    full = tier == "thorough"
    rep.call(documented_addresses)
    chars = "0123456789#"
    cases = [("", n) for n in range(1, 4)] + [(c, 4) for c in chars]
    cases += [(a + b, 5) for a in ("157" if not full else chars) for b in chars]
    if full:
        cases += [(a + b + c, 6) for a in "157" for b in chars for c in chars]
    rep.parallel_each(addresses, lambda: iter(cases), limit=300)
    ws = ["11", "1127", "51", "5255", "71#0", "7255#0", "599"]
    if full:
        ws = [f"1{n}" for n in range(1, 128, 3)] + [f"5{n}" for n in range(1, 256, 3)] + [f"7{n}#0" for n in range(1, 256, 3)]
    rep.parallel_each(commands, lambda: (([w], full) for w in ws), limit=300)
    sg = [f"1{n}" for n in range(1, 128)]
    rep.parallel_each(stop_go, lambda: ((sg[i::8],) for i in range(8)), limit=300)
    lo, hi = dt.date(2019, 12, 20).toordinal(), dt.date(2021 if not full else 2032, 1, 10).toordinal()
    days = list(range(lo, hi))
    edge = [dt.date(y, m, d).toordinal() for y in (2004, 2009, 2099, 2100) for m in range(1, 13) for d in (1, 28)] + [
        dt.date(y, 12, 31).toordinal() for y in (1999, 2004, 2009, 2010, 2098, 2099)
    ]
    parts = [(off, days[i::4], sec) for i in range(4) for off, sec in ((14, 1), (-12, 1))] + [(0, edge, 43200), (14, edge, 3600), (-12, edge, 3600)]
    rep.parallel_each(omitted, lambda: iter(parts), limit=300)
    rep.sample("start_sending_daily_totalizers_hourly(None, None) on 2019-12-31, midnight between two readings -> *18*57#12#31*51## or *18*57#1#1*51##")
    rep.sample("EnergyManagement('71#0') ACTUATOR, EnergyManagement('71#1') InvalidTag")
    rep.sample("get_energy_unit_per_month(3, 21) -> *#18*51*52#21#3##")
