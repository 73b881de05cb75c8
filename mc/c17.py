"""C17: light and dimmer commands send exactly the documented frame or nothing."""
import itertools

from .cmds import lenient, refused, run_session, sends
from .core import Violation
from .util import *  # noqa: F401,F403
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Where, Who

ASSUMPTIONS = [
    "brightness and speed of set_brightness_with_speed outside 100-200/0-255, and timers of 24 to 255 hours, may be refused or sent",
]

WHERES = ["12", "1", "0115", "0", "00", "100", "#1", "#255", "12#4#01", "0115#4#01", "#1#4#15"]

SIMPLE = {
    "turn_on": "1", "turn_off": "0",
    "turn_on_1_min": "11", "turn_on_2_min": "12", "turn_on_3_min": "13", "turn_on_4_min": "14", "turn_on_5_min": "15",
    "turn_on_15_min": "16", "turn_on_0_5_sec": "18",
}  # fmt: skip
LIGHT = {f"blink_{i // 2}_{5 * (i % 2)}_sec": str(19 + i) for i in range(1, 11)}
DIMMER = {f"set_{p}_percent": str(p // 10) for p in range(20, 101, 10)}


def simple(rep, method, cls, where):
    """A command without arguments."""
    k = {"Light": Light, "Dimmer": Dimmer}[cls]
    code = {**SIMPLE, **LIGHT, **DIMMER}[method]

    async def body(c, s):
        for w in (where, Where(where)):
            await sends(s, getattr(k(c, w), method)(), f"*1*{code}*{where}##", f"{cls}({where}).{method}()")

    run_session(body)
    rep.count(states=1, transitions=1, traces=1)


def half_hour(rep, method, cls, where):
    """There is no documented WHAT for 30 minutes: only a timer of 30 minutes has that effect."""
    k = {"Light": Light, "Dimmer": Dimmer}[cls]

    async def body(c, s):
        try:
            await sends(s, getattr(k(c, where), method)(), f"*#1*{where}*#2*0*30*0##", f"{cls}({where}).{method}()")
        except Violation as e:
            if s.frames == [f"*1*17*{where}##"]:
                raise Violation(f"{cls}.{method}() sends *1*17*WHERE##, which turns the light on for 30 seconds")
            raise e

    run_session(body)
    rep.count(states=1, transitions=1, traces=1)


def other_who(rep, cls, who, where):
    """An item given another WHO uses it in every frame."""
    k = {"Light": Light, "Dimmer": Dimmer}[cls]
    w = who.value if isinstance(who, Who) else who
    methods = {**SIMPLE, **(LIGHT if cls == "Light" else DIMMER)}

    async def body(c, s):
        for given in (w, Who(w)):
            d = k(c, where, who=given)
            what = f"{cls}({where}, who={w})"
            for m, code in methods.items():
                await sends(s, getattr(d, m)(), f"*{w}*{code}*{where}##", f"{what}.{m}()")
            await sends(s, d.temporization_command(1, 2, 3), f"*#{w}*{where}*#2*1*2*3##", f"{what}.temporization_command()")
            if cls == "Dimmer":
                await sends(s, d.turn_on(5), f"*{w}*1#5*{where}##", f"{what}.turn_on(5)")
                await sends(s, d.up_percent(5, 6), f"*{w}*30#5#6*{where}##", f"{what}.up_percent(5, 6)")
                await sends(s, d.set_hsv(1, 2, 3), f"*#{w}*{where}*#12*1*2*3##", f"{what}.set_hsv()")
            for req, frame in ((lambda: d.get_status(), f"*#{w}*{where}##"), (lambda: d.send_dimension_request("2"), f"*#{w}*{where}*2##")):

                async def ask():
                    return [x async for x in req()]

                await sends(s, ask(), frame, f"{what}, request")
            # the other items are not affected
            await sends(s, k(c, where).turn_on(), f"*1*1*{where}##", f"{cls}({where}).turn_on() after {what}")

    run_session(body)
    rep.count(states=2 * len(methods), transitions=2 * len(methods), traces=2 * len(methods))


def speed_command(rep, method, where, speeds):
    code = {"turn_on": "1", "turn_off": "0"}[method]

    async def body(c, s):
        d = Dimmer(c, where)
        for sp in speeds:
            what = f"Dimmer({where}).{method}({sp})"
            if sp is None:
                await sends(s, getattr(d, method)(None), f"*1*{code}*{where}##", what)
                await sends(s, getattr(d, method)(speed=None), f"*1*{code}*{where}##", what)
            elif 0 <= sp <= 255:
                await sends(s, getattr(d, method)(sp), f"*1*{code}#{sp}*{where}##", what)
                await sends(s, getattr(d, method)(speed=sp), f"*1*{code}#{sp}*{where}##", what)
            else:
                await refused(s, lambda: getattr(d, method)(sp), what, ValueError)

    run_session(body)
    rep.count(states=len(speeds), transitions=len(speeds), traces=len(speeds))


def step_command(rep, method, where, values, speeds):
    code = {"up_percent": "30", "down_percent": "31"}[method]

    async def body(c, s):
        d = Dimmer(c, where)
        f = getattr(d, method)
        for v in values:
            for sp in speeds:
                what = f"Dimmer({where}).{method}({v}, {sp})"
                bad = (v is not None and not 0 <= v <= 100) or (sp is not None and not 0 <= sp <= 255)
                if bad:
                    await refused(s, lambda: f(v, sp), what, ValueError)
                    continue
                if v is None and sp is None:
                    await sends(s, f(), f"*1*{code}*{where}##", what)
                par = "" if v is None and sp is None else f"#{1 if v is None else v}" + ("" if sp is None else f"#{sp}")
                await sends(s, f(v, sp), f"*1*{code}{par}*{where}##", what)
                await sends(s, f(speed=sp, value=v), f"*1*{code}{par}*{where}##", what)

    run_session(body)
    n = len(values) * len(speeds)
    rep.count(states=n, transitions=n, traces=n)


def timer(rep, cls, where, hours, minutes, seconds):
    k = {"Light": Light, "Dimmer": Dimmer}[cls]

    async def body(c, s):
        d = k(c, where)
        for h, m, sec in itertools.product(hours, minutes, seconds):
            what = f"{cls}({where}).temporization_command({h}, {m}, {sec})"
            frame = f"*#1*{where}*#2*{h}*{m}*{sec}##"
            if 0 <= h < 24 and 0 <= m < 60 and 0 <= sec < 60:
                await sends(s, d.temporization_command(h, m, sec), frame, what)
            elif 24 <= h <= 255 and 0 <= m < 60 and 0 <= sec < 60:
                await lenient(s, lambda: d.temporization_command(h, m, sec), frame, what)
            else:
                await refused(s, lambda: d.temporization_command(h, m, sec), what)

    run_session(body)
    n = len(hours) * len(minutes) * len(seconds)
    rep.count(states=n, transitions=n, traces=n)


def hsv(rep, where, hs, ss, vs):
    async def body(c, s):
        d = Dimmer(c, where)
        for h, sa, v in itertools.product(range(*hs), ss, vs):
            what = f"Dimmer({where}).set_hsv({h}, {sa}, {v})"
            if 0 <= h <= 359 and 0 <= sa <= 100 and 0 <= v <= 100:
                await sends(s, d.set_hsv(h, sa, v), f"*#1*{where}*#12*{h}*{sa}*{v}##", what)
            else:
                await refused(s, lambda: d.set_hsv(h, sa, v), what, ValueError)

    run_session(body)
    n = (hs[1] - hs[0]) * len(ss) * len(vs)
    rep.count(states=n, transitions=n, traces=n)


def white(rep, where, lo, hi, step=1):
    async def body(c, s):
        d = Dimmer(c, where)
        for t in range(lo, hi, step):
            what = f"Dimmer({where}).set_white_temperature({t})"
            if 1 <= t <= 65534:
                await sends(s, d.set_white_temperature(t), f"*#1*{where}*#14*{t}##", what)
            else:
                await refused(s, lambda: d.set_white_temperature(t), what, ValueError)

    run_session(body)
    n = len(range(lo, hi, step))
    rep.count(states=n, transitions=n, traces=n)


def brightness(rep, where, bs, sps):
    async def body(c, s):
        d = Dimmer(c, where)
        for b, sp in itertools.product(range(*bs), sps):
            what = f"Dimmer({where}).set_brightness_with_speed({b}, {sp})"
            frame = f"*#1*{where}*#1*{b}*{sp}##"
            if 100 <= b <= 200 and 0 <= sp <= 255:
                await sends(s, d.set_brightness_with_speed(b, sp), frame, what)
                await sends(s, d.set_brightness_with_speed(str(b), str(sp)), frame, what)
            elif b < 0 or sp < 0:
                await refused(s, lambda: d.set_brightness_with_speed(b, sp), what)
            else:
                await lenient(s, lambda: d.set_brightness_with_speed(b, sp), frame, what)

    run_session(body)
    n = (bs[1] - bs[0]) * len(sps)
    rep.count(states=n, transitions=n, traces=n)


def run(rep, tier):
    thorough = tier == "thorough"
    for where in WHERES:
        rep.each(simple, [(m, c, where) for m in SIMPLE for c in ("Light", "Dimmer")])
        rep.each(simple, [(m, "Light", where) for m in LIGHT] + [(m, "Dimmer", where) for m in DIMMER])
        rep.each(half_hour, [("turn_on_30_min", c, where) for c in ("Light", "Dimmer")])
    rep.each(other_who, [(c, w, where) for c in ("Light", "Dimmer") for w in sorted(x.value for x in Who) for where in ("12", "#1", "0115#4#01")])
    jobs = []

    def add(fn, *args):
        jobs.append(lambda r: r.call(fn, *args, limit=900))

    speeds = [None, -1000, *range(-3, 262), 1000, 65536]
    for w in WHERES:
        for m in ("turn_on", "turn_off"):
            add(speed_command, m, w, speeds)
    values = [None, -100, *range(-2, 104), 255, 1000]
    for i, w in enumerate(WHERES if thorough else ["12"]):
        for m in ("up_percent", "down_percent"):
            for k in range(0, len(speeds), 20):
                add(step_command, m, w, values, speeds[k : k + 20])
    for w in WHERES:
        for m in ("up_percent", "down_percent"):
            add(step_command, m, w, [None, -1, 0, 1, 50, 100, 101], [None, -1, 0, 1, 128, 255, 256])
    sixty = [-1, *range(0, 62)]
    for h in range(-1, 27):
        add(timer, "Light", "12", [h], sixty, sixty if thorough else [-1, 0, 1, 9, 10, 30, 58, 59, 60, 61])
        add(timer, "Dimmer", "0115#4#01", [h], [-1, 0, 1, 30, 59, 60], sixty)
    add(timer, "Light", "12", list(range(24, 260)) + [1000], [0, 59, 60, -1], [0, 59, 60, -1])
    for w in WHERES:
        add(timer, "Light", w, [0, 1, 23], [0, 1, 59, 60], [0, 1, 59, 60])
    edge = [-1, 0, 1, 50, 99, 100, 101]
    full = list(range(-2, 104))
    if thorough:
        for h in range(-2, 364, 2):
            add(hsv, "12", [h, h + 2], full, full)
    else:
        for h in range(-2, 364, 40):
            add(hsv, "12", [h, min(h + 40, 364)], [0, 37, 100], [0, 64, 100])
            add(hsv, "12", [h, min(h + 40, 364)], [-1, 1, 101], [-1, 99, 101])
        for h in (-1, 0, 180, 359, 360):
            add(hsv, "12", [h, h + 1], full, full)
    for w in WHERES:
        add(hsv, w, [-1, 1], edge, edge)
        add(hsv, w, [358, 362], edge, edge)
    for lo in range(-4, 65540, 4096):
        add(white, "12", lo, min(lo + 4096, 65542))
    for w in WHERES:
        add(white, w, -3, 65600, 1 if thorough else 257)
        add(white, w, 65525, 65545)
    add(white, "12", 65535, 10**6, 997)
    allsp = list(range(-1, 258))
    for b in range(98, 204, 6):
        add(brightness, "12", [b, b + 6], allsp)
    add(brightness, "12", [-2, 256], [0, 1, 255])
    for w in WHERES:
        add(brightness, w, [100, 201] if thorough else [100, 103], [0, 7, 255])
    rep.parallel(jobs)
    rep.sample("Dimmer(12).up_percent(5, 255) -> *1*30#5#255*12##")
