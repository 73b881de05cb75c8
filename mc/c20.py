"""C20: the date and time set on the gateway are the ones it will read back.

The gateway model stores the values of each writing and gives them back when asked.
"""
import datetime as dt

from .cmds import lenient, refused, run_session, sends
from .core import Violation
from .util import *  # noqa: F401,F403
from .util import ACK
from pyown.items.gateway import Gateway

ASSUMPTIONS = ["zones whose offset is not a whole number of hours or depends on the date are not claimed"]


class Fixed(dt.tzinfo):
    """A zone that is not a datetime.timezone."""

    def __init__(self, h):
        self.h = h

    def utcoffset(self, _):
        return dt.timedelta(hours=self.h)

    def dst(self, _):
        return dt.timedelta(0)

    def tzname(self, _):
        return "X"


class NoOffset(dt.tzinfo):
    def utcoffset(self, _):
        return None

    def dst(self, _):
        return None

    def tzname(self, _):
        return "none"


def zone(h, custom=False):
    return Fixed(h) if custom else dt.timezone(dt.timedelta(hours=h))


def own_zone(h):
    return f"{0 if h >= 0 else 1}{abs(h):02d}"


def weekday(d):
    """Zeller's congruence: 0 is Sunday (independent of datetime.weekday)."""
    q, m, y = d.day, d.month, d.year
    if m < 3:
        m += 12
        y -= 1
    h = (q + 13 * (m + 1) // 5 + y + y // 4 - y // 100 + y // 400) % 7  # 0 is Saturday
    return (h + 6) % 7


class Store:
    def __init__(self):
        self.values = {}
        self.sent = []

    def answer(self, f):
        self.sent.append(f)
        body = f[2:-2].split("*")
        if body[:2] == ["13", ""] and body[2].startswith("#"):
            self.values[body[2][1:]] = body[3:]
            return [ACK]
        if body[:2] == ["13", ""] and len(body) == 3 and body[2] in self.values:
            return ["*#13**" + "*".join([body[2], *self.values[body[2]]]) + "##", ACK]
        return ["*#*0##"]


async def roundtrip(st, setter, getter, dim, value, fields, what):
    st.sent.clear()
    frame = f"*#13**#{dim}*" + "*".join(fields) + "##"
    try:
        await must(setter(value), what)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")
    if st.sent != [frame]:
        raise Violation(f"{what} sent {st.sent}, expected {[frame]}")
    st.sent.clear()
    got = await must(getter(), f"reading back {what}")
    if st.sent != [f"*#13**{dim}##"]:
        raise Violation(f"reading back {what} sent {st.sent}")
    if type(got) is not type(value) or got != value:
        raise Violation(f"{what} read back as {got!r}")
    if isinstance(value, dt.time):
        a, b = (got.replace(tzinfo=None), got.utcoffset()), (value.replace(tzinfo=None), value.utcoffset())
        if a != b:
            raise Violation(f"{what} read back as {got!r}")
    elif isinstance(value, dt.datetime):
        a, b = (got.replace(tzinfo=None), got.utcoffset()), (value.replace(tzinfo=None), value.utcoffset())
        if a != b:
            raise Violation(f"{what} read back as {got!r}")


def times(rep, start, stop, step, zones, custom):
    st = Store()

    async def body(c, s):
        g = Gateway(c)
        for x in range(start, stop, step):
            for z in zones:
                t = dt.time(x // 3600, x // 60 % 60, x % 60, tzinfo=zone(z, custom))
                f = [f"{t.hour:02d}", f"{t.minute:02d}", f"{t.second:02d}", own_zone(z)]
                await roundtrip(st, g.set_time, g.get_time, 0, t, f, f"set_time({t})")

    run_session(body, answer=st.answer)
    n = len(range(start, stop, step)) * len(zones)
    rep.count(states=n, transitions=2 * n, traces=n)
    rep.cover("times", n)


def dates(rep, start, stop, step):
    st = Store()

    async def body(c, s):
        g = Gateway(c)
        for x in range(start, stop, step):
            d = dt.date.fromordinal(x)
            f = [f"{weekday(d):02d}", f"{d.day:02d}", f"{d.month:02d}", f"{d.year}"]
            await roundtrip(st, g.set_date, g.get_date, 1, d, f, f"set_date({d})")

    run_session(body, answer=st.answer)
    n = len(range(start, stop, step))
    rep.count(states=n, transitions=2 * n, traces=n)
    rep.cover("dates", n)


def datetimes(rep, start, stop, step, seconds, zones, custom):
    st = Store()

    async def body(c, s):
        g = Gateway(c)
        for x in range(start, stop, step):
            d = dt.date.fromordinal(x)
            for sec in seconds:
                for z in zones:
                    t = dt.datetime(d.year, d.month, d.day, sec // 3600, sec // 60 % 60, sec % 60, tzinfo=zone(z, custom))
                    f = [
                        f"{t.hour:02d}", f"{t.minute:02d}", f"{t.second:02d}", own_zone(z),
                        f"{weekday(d):02d}", f"{d.day:02d}", f"{d.month:02d}", f"{d.year}",
                    ]  # fmt: skip
                    await roundtrip(st, g.set_datetime, g.get_datetime, 22, t, f, f"set_datetime({t})")

    run_session(body, answer=st.answer)
    n = len(range(start, stop, step)) * len(seconds) * len(zones)
    rep.count(states=n, transitions=2 * n, traces=n)
    rep.cover("datetimes", n)


class Seasonal(dt.tzinfo):
    """A zone whose offset depends on the date: unknown for a time alone."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def utcoffset(self, t):
        if t is None:
            return None
        return dt.timedelta(hours=self.b if 4 <= t.month <= 9 else self.a)

    def dst(self, t):
        return None if t is None else dt.timedelta(hours=(self.b - self.a) if 4 <= t.month <= 9 else 0)

    def tzname(self, _):
        return "seasonal"


def seasonal(rep):
    """Refused (as documented), or for a date and time sent with the offset of that date."""

    async def body(c, s):
        g = Gateway(c)
        for a, b in ((1, 2), (0, 1), (-5, -4), (12, 13)):
            z = Seasonal(a, b)
            for h in (0, 12, 23):
                await refused(s, lambda: g.set_time(dt.time(h, 10, 20, tzinfo=z)), "set_time with a seasonal zone", ValueError)
                for mo in range(1, 13):
                    t = dt.datetime(2021, mo, 15, h, 10, 20, tzinfo=z)
                    off = own_zone(b if 4 <= mo <= 9 else a)
                    frame = f"*#13**#22*{h:02d}*10*20*{off}*{weekday(t):02d}*15*{mo:02d}*2021##"
                    await lenient(s, lambda: g.set_datetime(t), frame, f"set_datetime({t}) with a seasonal zone")

    run_session(body)
    rep.count(states=156, transitions=156, traces=156)


def fractions(rep):
    """The fraction of a second cannot be sent: the other fields are not touched by it."""

    async def body(c, s):
        g = Gateway(c)
        for us in (1, 499999, 500000, 500001, 999999):
            for h, m, sec in ((0, 0, 0), (1, 2, 3), (10, 59, 59), (23, 59, 59), (12, 0, 30)):
                for z in (-8, 0, 1):
                    t = dt.datetime(2023, 12, 31, h, m, sec, us, tzinfo=zone(z))
                    hms = f"{h:02d}*{m:02d}*{sec:02d}*{own_zone(z)}"
                    await sends(s, g.set_time(t.timetz()), f"*#13**#0*{hms}##", f"set_time({t.timetz()})")
                    await sends(s, g.set_datetime(t), f"*#13**#22*{hms}*00*31*12*2023##", f"set_datetime({t})")
                await sends(s, g.set_date(t), "*#13**#1*00*31*12*2023##", f"set_date({t})")

    run_session(body)
    rep.count(states=75, transitions=175, traces=75)


def naive(rep):
    st = Store()

    async def body(c, s):
        g = Gateway(c)
        for h in range(24):
            for tz in (None, NoOffset()):
                await refused(s, lambda: g.set_time(dt.time(h, 10, 20, tzinfo=tz)), f"set_time with zone {tz}", ValueError)
                await refused(s, lambda: g.set_datetime(dt.datetime(2021, 12, h + 1, h, 10, 20, tzinfo=tz)), f"set_datetime with zone {tz}", ValueError)
        if st.sent:
            raise Violation(f"a value without zone was sent: {st.sent}")

    run_session(body, answer=st.answer)
    rep.count(states=96, transitions=96, traces=96)


def mixed(rep, first, second):
    """Two settings in a row do not influence each other."""
    st = Store()

    async def body(c, s):
        g = Gateway(c)
        for z1 in (-12, -1, 0, 1, 13):
            for z2 in (-12, -1, 0, 1, 13):
                for kind, z, day in ((first, z1, 3), (second, z2, 28)):
                    t = dt.datetime(2024, 2, day, 23, 59, 58, tzinfo=zone(z))
                    hms = ["23", "59", "58", own_zone(z)]
                    dmy = [f"{weekday(t):02d}", f"{day:02d}", "02", "2024"]
                    if kind == "time":
                        await roundtrip(st, g.set_time, g.get_time, 0, t.timetz(), hms, f"set_time({t})")
                    elif kind == "date":
                        await roundtrip(st, g.set_date, g.get_date, 1, t.date(), dmy, f"set_date({t})")
                    else:
                        await roundtrip(st, g.set_datetime, g.get_datetime, 22, t, hms + dmy, f"set_datetime({t})")

    run_session(body, answer=st.answer)
    rep.count(states=25, transitions=100, traces=25)


def zoned(rep, zone, name, *args):
    """The same, the program running in another zone."""
    with local_zone(zone):
        globals()[name](rep, *args)
    rep.cover("local_zone_" + zone.split(",")[0])


def run(rep, tier):
    thorough = tier == "thorough"
    jobs = []

    def add(fn, *args):
        jobs.append(lambda r: r.call(fn, *args, limit=900))

    zones = list(range(-23, 24))
    for a in range(0, 86400, 3600):
        add(times, a, a + 3600, 1, [0, -5, 12] if thorough else [(a // 3600) - 12], False)
        add(times, a, a + 3600, 173, zones, False)
        add(times, a, a + 3600, 601, zones, True)
    lo, hi = dt.date(2000, 1, 1).toordinal(), dt.date(2100, 1, 1).toordinal()
    for a in range(lo, hi, 2000):
        add(dates, a, min(a + 2000, hi), 1)
        add(datetimes, a, min(a + 2000, hi), 1, [0, 86399] if thorough else [(a * 7919) % 86400], [1], False)
        add(datetimes, a, min(a + 2000, hi), 97, [3661, 43200], zones, False)
    lo, hi = dt.date(1000, 1, 1).toordinal(), dt.date(9999, 12, 31).toordinal() + 1
    for a in range(lo, hi, 60000):
        add(dates, a, min(a + 60000, hi), 1 if thorough else 61)
        add(datetimes, a, min(a + 60000, hi), 1 if thorough else 601, [52245], [-8], True)
    add(naive)
    add(seasonal)
    add(fractions)
    for a in ("time", "date", "datetime"):
        for b in ("time", "date", "datetime"):
            add(mixed, a, b)
    lo = dt.date(2024, 1, 1).toordinal()
    for z in ZONES:
        add(zoned, z, "times", 0, 86400, 601, zones[::4], False)
        add(zoned, z, "dates", lo, lo + 800, 1)
        add(zoned, z, "datetimes", lo, lo + 800, 1, [0, 9000, 86399], [-11, 0, 2], False)
        for f in ("naive", "seasonal", "fractions"):
            add(zoned, z, f)
    rep.parallel(jobs)
    rep.sample("set_datetime(2021-12-09 12:30:01+01:00) -> *#13**#22*12*30*01*001*04*09*12*2021##")
