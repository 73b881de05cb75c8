"""C18: light states and events are decoded to the documented meaning."""
import itertools

from .cmds import answers_of, compare, run_events, run_session
from .core import Violation
from .partial import pairs_of, registrations
from .util import *  # noqa: F401,F403
from pyown.items.lighting import Dimmer, Light

ASSUMPTIONS = [
    "the level reported by Dimmer.get_status for a WHAT that is not a level (1, 11 and above) is not claimed",
    "status events for timers, blinking and level steps are not claimed",
]

WHERES = ["12", "1", "0115", "99", "12#4#01", "0115#4#01", "0", "#1"]


def conv(t):
    return [t[0].string, *t[1:]]


# name -> (class, method, dimension, frame of values)
REQUESTS = {
    "brightness": (Dimmer, "request_current_brightness_speed", "1"),
    "hsv": (Dimmer, "request_current_hsv", "12"),
    "white": (Dimmer, "request_current_white_temperature", "14"),
    "timer": (Dimmer, "temporization_request", "2"),
    "timer_light": (Light, "temporization_request", "2"),
    "work": (Light, "request_working_time_lamp", "8"),
    "work_dimmer": (Dimmer, "request_working_time_lamp", "8"),
}
EVENTS = {"brightness": "light_luminosity", "hsv": "light_hsv", "white": "light_white", "timer": "light_temporization"}

# value spaces; each entry is a list of ranges, the product of which is explored
SPACES = {
    "brightness": [[(100, 201), (0, 256)], [(0, 256), (0, 2)]],
    "hsv": [[(0, 360), (0, 1), (100, 101)], [(180, 181), (0, 101), (0, 101)], [(0, 360), (97, 98), (3, 4)]],
    "hsv_full": [[(0, 360), (0, 101), (0, 101)]],
    "white": [[(1, 65535)]],
    "timer": [[(0, 256), (0, 1), (0, 1)], [(0, 24), (0, 60), (59, 60)], [(23, 24), (0, 60), (0, 60)], [(5, 6), (59, 60), (0, 60)]],
    "timer_full": [[(0, 24), (0, 60), (0, 60)]],
    "work": [[(1, 100001)]],
}


def product(ranges):
    return list(itertools.product(*[range(*r) for r in ranges]))


def request(rep, name, where, ranges, pad):
    """pad: fields written with leading zeros, as some gateways do."""
    cls, method, dim = REQUESTS[name]
    vals = product(ranges)
    answers, want = [], []
    for i, v in enumerate(vals):
        w = WHERES[i % len(WHERES)]
        answers.append(f"*#1*{w}*{dim}*" + "*".join(f"{x:0{pad}d}" for x in v) + "##")
        want.append([w, *v])

    async def body(c, s):
        item = cls(c, where)
        got = await answers_of(s, getattr(item, method), f"*#1*{where}*{dim}##", answers, f"{cls.__name__}({where}).{method}()", conv)
        compare(method, answers, got, want)

    run_session(body)
    rep.count(states=len(vals), transitions=len(vals), traces=len(vals))


def status(rep, cls, where):
    k = {"Light": Light, "Dimmer": Dimmer}[cls]
    codes = {"0": False, "1": True} if cls == "Light" else {"0": 0, **{str(i): 10 * i for i in range(2, 11)}}
    answers, want = [], []
    for a, b in itertools.product(codes, repeat=2):
        for w in WHERES:
            answers += [f"*1*{a}*{w}##", f"*1*{b}*{w[::-1] if '#' not in w else w}##"]
            want += [[w, codes[a]], [w[::-1] if "#" not in w else w, codes[b]]]

    async def body(c, s):
        for per in (1, 2, 50):
            got = await answers_of(s, k(c, where).get_status, f"*#1*{where}##", answers, f"{cls}({where}).get_status()", conv, per=per)
            compare("get_status", answers, got, want)

    run_session(body)
    rep.count(states=len(answers), transitions=len(answers), traces=len(answers))


def levels(rep, where):
    """A light answering with a dimmer level is on: it is reported as on or left out, never as off."""

    async def body(c, s):
        for code in range(2, 11):
            for answers in ([f"*1*{code}*12##"], ["*1*0*13##", f"*1*{code}*12##", "*1*1*14##"], [f"*1*{code}*12##", "*1*0*13##"]):
                got = await answers_of(s, Light(c, where).get_status, f"*#1*{where}##", answers, f"Light({where}).get_status()", conv)
                rest = [x for x in got if x != ["12", True]]
                want = [["13", False]] * ("*1*0*13##" in answers) + [["14", True]] * ("*1*1*14##" in answers)
                if rest != want or len(got) - len(rest) > 1:
                    raise Violation(f"Light.get_status() answered {answers}: {got}")

    run_session(body)
    rep.count(states=27, transitions=27, traces=27)


def events(rep, name, ranges, pad, per):
    dim = REQUESTS[name][2]
    out = []
    for i, v in enumerate(product(ranges)):
        w = WHERES[i % len(WHERES)]
        out.append((f"*#1*{w}*{dim}*" + "*".join(f"{x:0{pad}d}" for x in v) + "##", EVENTS[name], list(v)))
    run_events(rep, out, per_segment=per)


def status_events(rep):
    out = []
    for w in WHERES:
        for code in range(0, 11):
            for par in ("", "#0", "#1", "#255"):
                if par and code > 1:
                    continue
                out.append((f"*1*{code}{par}*{w}##", "light_status", [code != 0]))
    run_events(rep, out)
    run_events(rep, out[::-1], per_segment=7)


def quiet_events(rep):
    """Dimensions of other quantities reach none of the callbacks."""
    out = [(f"*#1*12*{d}*1*2*3##", None, []) for d in range(3, 400) if d not in (12, 14)]
    run_events(rep, out, per_segment=20)


def run(rep, tier):
    thorough = tier == "thorough"
    # first: these histories need processes without registered callbacks
    rep.parallel_each(registrations, lambda: ((ops,) for ops in pairs_of(("light",))))
    jobs = []

    def add(fn, *args):
        jobs.append(lambda r: r.call(fn, *args, limit=900))

    def split(ranges, k):
        lo, hi = ranges[0]
        step = max(1, -(-(hi - lo) // k))
        return [[(a, min(a + step, hi)), *ranges[1:]] for a in range(lo, hi, step)]

    for name in REQUESTS:
        base = name.split("_")[0]
        spaces = SPACES[base + "_full"] if thorough and base + "_full" in SPACES else SPACES[base]
        for ranges in spaces:
            for part in split(ranges, 12):
                add(request, name, "12", part, 0)
        for where in WHERES:
            add(request, name, where, [(r[0], min(r[1], r[0] + 4)) for r in SPACES[base][0]], 3)
    for cls in ("Light", "Dimmer"):
        for where in WHERES:
            add(status, cls, where)
            add(levels, where)
    for name in EVENTS:
        spaces = SPACES[name + "_full"] if thorough and name + "_full" in SPACES else SPACES[name]
        for ranges in spaces:
            for part in split(ranges, 12):
                add(events, name, part, 0, 1 if thorough else 25)
        add(events, name, [(r[0], min(r[1], r[0] + 5)) for r in SPACES[name][0]], 3, 1)
        add(events, name, [(max(r[0], r[1] - 5), r[1]) for r in SPACES[name][0]], 0, 1)
    add(status_events)
    add(quiet_events)
    rep.parallel(jobs)
    rep.sample("*#1*12*12*300*40*50## -> on_hsv_change(item 12, 300, 40, 50) only")
