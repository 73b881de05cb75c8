"""C21: gateway information is decoded exactly, for requests and for events."""
import datetime as dt
import ipaddress

from .cmds import run_events, run_session
from .core import Violation
from .partial import pairs_of, registrations
from .util import *  # noqa: F401,F403
from .util import ACK
from pyown.items.gateway import Gateway
from pyown.items.gateway.gateway import GatewayModel, WhatGateway

ASSUMPTIONS = [
    "numeric fields may have leading zeros; in versions they are kept as sent",
    "documented or listed models keep their names, every other code is GENERIC",
]

MODELS = {"2": "MHServer", "4": "MH200", "6": "F452", "7": "F452V", "11": "MHServer2", "13": "H4684", "23": "HL4684", "200": "MH202"}

DIM = {
    "time": ("0", "TIME", "get_time"), "date": ("1", "DATE", "get_date"), "ip": ("10", "IP_ADDRESS", "get_ip"),
    "mask": ("11", "NET_MASK", "get_netmask"), "mac": ("12", "MAC_ADDRESS", "get_macaddress"),
    "model": ("15", "DEVICE_TYPE", "get_model"), "firmware": ("16", "FIRMWARE_VERSION", "get_firmware"),
    "uptime": ("19", "UPTIME", "get_uptime"), "datetime": ("22", "DATE_TIME", "get_datetime"),
    "kernel": ("23", "KERNEL_VERSION", "get_kernel_version"), "distribution": ("24", "DISTRIBUTION_VERSION", "get_distribution_version"),
}  # fmt: skip


def tz(h):
    return dt.timezone(dt.timedelta(hours=h))


def oz(h):
    return f"{0 if h >= 0 else 1}{abs(h):02d}"


def octets(n, fmt):
    """Every value of every octet, the others fixed and varied; all the corners."""
    base = [1, 128, 7, 200, 16, 255][:n]
    for i in range(n):
        for v in range(256):
            x = list(base)
            x[i] = v
            yield x
            x = [(v * 7 + 31 * k) % 256 for k in range(n)]
            x[i] = v
            yield x
    for m in range(2**n):
        yield [255 if m >> i & 1 else 0 for i in range(n)]
        yield [16 if m >> i & 1 else 9 for i in range(n)]


def space(name, full):
    """-> (values of the frame, decoded value)."""
    if name == "time":
        for s in range(0, 86400, 1 if full else 7):
            h = s % 47 - 23
            yield [f"{s // 3600:02d}", f"{s // 60 % 60:02d}", f"{s % 60:02d}", oz(h)], dt.time(s // 3600, s // 60 % 60, s % 60, tzinfo=tz(h))
        for h in range(-23, 24):
            for s in (0, 3599, 43200, 86399):
                yield [str(s // 3600), str(s // 60 % 60), str(s % 60), oz(h)], dt.time(s // 3600, s // 60 % 60, s % 60, tzinfo=tz(h))
        # the zone is not set
        for s in range(0, 86400, 1 if full else 61):
            yield [f"{s // 3600:02d}", f"{s // 60 % 60:02d}", f"{s % 60:02d}", ""], dt.time(s // 3600, s // 60 % 60, s % 60, tzinfo=dt.timezone.utc)
    elif name == "date":
        for o in range(dt.date(2000, 1, 1).toordinal(), dt.date(2100, 1, 1).toordinal(), 1 if full else 3):
            d = dt.date.fromordinal(o)
            yield [f"{d.isoweekday() % 7:02d}", f"{d.day:02d}", f"{d.month:02d}", f"{d.year}"], d
        for m in range(1, 13):
            yield ["0", "1", str(m), "1999"], dt.date(1999, m, 1)
        for y in range(1970, 2400):
            yield [f"{dt.date(y, 3, 1).isoweekday() % 7:02d}", "01", "03", str(y)], dt.date(y, 3, 1)
    elif name == "datetime":
        lo = dt.date(2000, 1, 1).toordinal()
        for k in range(36524 if full else 6000):
            d = dt.date.fromordinal(lo + (k if full else 6 * k))
            s = (k * 7919) % 86400
            h = k % 47 - 23
            v = dt.datetime(d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60, tzinfo=tz(h))
            yield [
                f"{v.hour:02d}", f"{v.minute:02d}", f"{v.second:02d}", oz(h), f"{d.isoweekday() % 7:02d}",
                f"{v.day:02d}", f"{v.month:02d}", f"{v.year}",
            ], v  # fmt: skip
        for y in range(1970, 2400):
            yield ["01", "02", "03", "", "00", "04", "05", str(y)], dt.datetime(y, 5, 4, 1, 2, 3, tzinfo=dt.timezone.utc)
            yield ["01", "02", "03", "001", "00", "04", "05", str(y)], dt.datetime(y, 5, 4, 1, 2, 3, tzinfo=tz(1))
    elif name == "ip":
        for x in octets(4, None):
            yield [str(v) for v in x], ipaddress.IPv4Address(".".join(map(str, x)))
            yield [f"{v:03d}" for v in x], ipaddress.IPv4Address(".".join(map(str, x)))
    elif name == "mask":
        for x in octets(4, None):
            yield [str(v) for v in x], ".".join(map(str, x))
            yield [f"{v:03d}" for v in x], ".".join(map(str, x))
    elif name == "mac":
        for x in octets(6, None):
            yield [str(v) for v in x], ":".join(f"{v:02X}" for v in x)
            yield [f"{v:03d}" for v in x], ":".join(f"{v:02X}" for v in x)
    elif name == "model":
        for i in range(0, 2000 if full else 500):
            yield [str(i)], GatewayModel[MODELS.get(str(i), "GENERIC")]
    elif name in ("firmware", "kernel", "distribution"):
        for i in range(0, 256):
            for v in ([i, 2, 3], [1, i, 3], [1, 2, i], [i, 255 - i, i // 2]):
                yield [str(x) for x in v], ".".join(map(str, v))
            if i % 3 == 0:
                for w in (2, 3):
                    v = [f"{x:0{w}d}" for x in (i % 10, i % 100, i)]
                    yield v, ".".join(v)
                    yield v[::-1], ".".join(v[::-1])
    elif name == "uptime":
        for d in range(0, 1000 if full else 100):
            yield [str(d), "1", "2", "3"], dt.timedelta(days=d, hours=1, minutes=2, seconds=3)
        for s in range(0, 86400, 1 if full else 11):
            yield (
                [str(s % 400), f"{s // 3600:02d}", f"{s // 60 % 60:02d}", f"{s % 60:02d}"],
                dt.timedelta(days=s % 400, seconds=s),
            )


def strict(a, b):
    if type(a) is not type(b) or a != b:
        return False
    if isinstance(a, (dt.time, dt.datetime)):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    return True


def requests(rep, name, full, k, n):
    dim, _, method = DIM[name]
    cases = list(space(name, full))[k::n]

    async def body(c, s):
        g = Gateway(c)
        for vals, want in cases:
            answer = f"*#13**{dim}*" + "*".join(vals) + "##"
            s.frames.clear()
            s.answer = lambda f: [answer, ACK]
            try:
                got = await must(getattr(g, method)(), method)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"{method}() answered {answer} raised {type(e).__name__}: {e}")
            if s.frames != [f"*#13**{dim}##"]:
                raise Violation(f"{method}() sent {s.frames}")
            if not strict(got, want):
                raise Violation(f"{method}() answered {answer}: {got!r}, expected {want!r}")

    run_session(body)
    rep.count(states=len(cases), transitions=len(cases), traces=len(cases))


def events(rep, name, full, k, n, writing, per):
    dim, what, _ = DIM[name]
    mark = "#" if writing else ""
    out = [(f"*#13**{mark}{dim}*" + "*".join(v) + "##", f"gateway_{what}", [want]) for v, want in list(space(name, full))[k::n]]
    run_events(rep, out, per_segment=per)


def network(rep, ips):
    async def body(c, s):
        g = Gateway(c)
        for ip in ips:
            for bits in range(33):
                mask = (0xFFFFFFFF << (32 - bits)) & 0xFFFFFFFF
                net = f"{ip & mask:032b}"
                mo = [str(mask >> sh & 255) for sh in (24, 16, 8, 0)]
                io = [str(ip >> sh & 255) for sh in (24, 16, 8, 0)]
                s.frames.clear()
                s.answer = lambda f: ["*#13**10*" + "*".join(io) + "##", ACK] if f == "*#13**10##" else ["*#13**11*" + "*".join(mo) + "##", ACK]
                got = await must(g.get_netinfo(), "get_netinfo")
                want = ipaddress.IPv4Network((int(net, 2), bits))
                if not strict(got, want):
                    raise Violation(f"get_netinfo() with {io}/{mo}: {got!r}, expected {want!r}")
                if sorted(s.frames) != ["*#13**10##", "*#13**11##"]:
                    raise Violation(f"get_netinfo() sent {s.frames}")

    run_session(body)
    rep.count(states=33 * len(ips), transitions=66 * len(ips), traces=33 * len(ips))


def meanings(rep):
    for name, (dim, what, _) in DIM.items():
        if WhatGateway[what] != dim:
            raise Violation(f"WhatGateway.{what} is {WhatGateway[what]}")
    for code, name in MODELS.items():
        if GatewayModel[name] != code:
            raise Violation(f"GatewayModel.{name} is {GatewayModel[name]!r}")
    rep.count(states=len(DIM), transitions=len(DIM), traces=len(DIM))


def zoned(rep, zone, name, *args):
    """The same, the program running in another zone."""
    with local_zone(zone):
        globals()[name](rep, *args)
    rep.cover("local_zone_" + zone.split(",")[0])


def run(rep, tier):
    thorough = tier == "thorough"
    # first: these histories need processes without registered callbacks
    rep.parallel_each(registrations, lambda: ((ops,) for ops in pairs_of(("gateway",))))
    rep.each(meanings, [()])
    jobs = []

    def add(fn, *args):
        jobs.append(lambda r: r.call(fn, *args, limit=900))

    for name in DIM:
        for k in range(8):
            add(requests, name, thorough, k, 8)
            add(events, name, thorough, k, 8, False, 1 if thorough else 10)
            add(events, name, thorough, k, 8, True, 1 if thorough else 10)
    for z in ZONES:
        for name in ("time", "date", "datetime", "uptime"):
            for k in range(8) if thorough else (ZONES.index(z),):
                add(zoned, z, "requests", name, False, k, 8)
                for w in (False, True):
                    add(zoned, z, "events", name, False, k, 8, w, 10)
    for k in range(8):
        add(network, [0xC0A80123, 0x0A000001, 0xFFFFFFFF, 0, 0xAC10FE64, 0x7F000001] if not k else [(k * 0x9E3779B1 + j * 0x01234567) & 0xFFFFFFFF for j in range(20)])
    rep.parallel(jobs)
    rep.sample("*#13**12*0*3*80*0*10*255## -> 00:03:50:00:0A:FF")
