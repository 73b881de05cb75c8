"""C11: the outcome of a command is decided by the gateway's answer.

Every script of answers up to a length, for every kind of command, sequences of commands included; the
oracle is the documented exchange (answers, then ACK or NACK).
"""
import asyncio
import datetime

from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK, NACK
from .vloop import Env
from pyown.exceptions import ResponseError
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.energy.stop_go import StopGo
from pyown.items.gateway import Gateway
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Value, What

ASSUMPTIONS = [
    "the gateway answers only to what it is asked, and its answers come less than 5 s apart",
    "what follows an exchange that the gateway did not complete (no closing ACK/NACK) is not judged",
    "values yielded before an error are not judged",
]

# commands: call, frame
COMMANDS = {
    "light": (lambda c: Light(c, "12").turn_on(), "*1*1*12##"),
    "timer": (lambda c: Light(c, "12").temporization_command(1, 2, 3), "*#1*12*#2*1*2*3##"),
    "hsv": (lambda c: Dimmer(c, "12").set_hsv(10, 20, 30), "*#1*12*#12*10*20*30##"),
    "up": (lambda c: Automation(c, "12").up(), "*2*1*12##"),
    "zoom": (lambda c: Camera(c, "4000").zoom_in(), "*7*120##"),
    "video": (lambda c: Camera(c, "4001").receive_video(), "*7*0*4001##"),
    "dial": (lambda c: Camera(c, "4001").display_dial(2, 3), "*7*323##"),
    "set_date": (lambda c: Gateway(c).set_date(datetime.date(2021, 12, 9)), "*#13**#1*04*09*12*2021##"),
    "set_time": (lambda c: Gateway(c).set_time(datetime.time(1, 2, 3, tzinfo=datetime.timezone.utc)), "*#13**#0*01*02*03*000##"),
    "enable": (lambda c: EnergyManagement(c, "71#0").enable_actuator(), "*18*71*71#0##"),
    "power_on": (lambda c: EnergyManagement(c, "51").start_sending_instant_power(5), "*#18*51*#1200#1*5##"),
    "raw_what": (lambda c: Light(c, "0115#4#01").send_normal_message("77#1#02"), "*1*77#1#02*0115#4#01##"),
    "raw_what_tag": (lambda c: Automation(c, "33").send_normal_message(What("7").with_parameter("5")), "*2*7#5*33##"),
    "raw_write": (lambda c: Light(c, "33").send_dimension_writing("77#2", Value("05"), Value("1")), "*#1*33*#77#2*05*1##"),
    "reset": (lambda c: StopGo(c, "11").enable_automatic_reset(), "*18*26*11##"),
}


def w(t):
    return [x.string if hasattr(x, "string") and not isinstance(x, str) else x for x in t]


# requests with many answers: call -> async generator, frame, kind, answer(i) -> frame, value(i) -> yielded
REQUESTS = {
    "light_status": (
        lambda c: Light(c, "12").get_status(), "*#1*12##", "status",
        lambda i: f"*1*{i % 2}*1{i}##", lambda i: [f"1{i}", bool(i % 2)], w,
    ),
    "dimmer_status": (
        lambda c: Dimmer(c, "0").get_status(), "*#1*0##", "status",
        lambda i: f"*1*{i + 2}*0{i}##", lambda i: [f"0{i}", 10 * i + 20], w,
    ),
    "automation_status": (
        lambda c: Automation(c, "33").get_status(), "*#2*33##", "status",
        lambda i: f"*2*{i % 3}*3{i}##", lambda i: [f"3{i}", str(i % 3)], lambda t: [t[0].string, str(t[1])],
    ),
    "raw_status": (
        lambda c: Automation(c, "33").send_status_request(), "*#2*33##", "status",
        lambda i: f"*2*100{i}#1*3{i}#4#01##", lambda i: f"*2*100{i}#1*3{i}#4#01##", str,
    ),
    "raw_dim": (
        lambda c: Light(c, "33").send_dimension_request("77"), "*#1*33*77##", "dim",
        lambda i: f"*#1*3{i}*77*{i}*5##", lambda i: f"*#1*3{i}*77*{i}*5##", str,
    ),
    "timer_req": (
        lambda c: Light(c, "12").temporization_request(), "*#1*12*2##", "dim",
        lambda i: f"*#1*1{i}*2*{i}*2*3##", lambda i: [f"1{i}", i, 2, 3], w,
    ),
    "work_req": (
        lambda c: Dimmer(c, "12").request_working_time_lamp(), "*#1*12*8##", "dim",
        lambda i: f"*#1*1{i}*8*{i}##", lambda i: [f"1{i}", i], w,
    ),
    "bright_req": (
        lambda c: Dimmer(c, "12").request_current_brightness_speed(), "*#1*12*1##", "dim",
        lambda i: f"*#1*1{i}*1*15{i}*{i}##", lambda i: [f"1{i}", 150 + i, i], w,
    ),
}  # fmt: skip

# requests with one answer: call, frame, answer(i), value(i)
SINGLES = {
    "firmware": (lambda c: Gateway(c).get_firmware(), "*#13**16##", lambda i: f"*#13**16*{i}*2*3##", lambda i: f"{i}.2.3"),
    "uptime": (lambda c: Gateway(c).get_uptime(), "*#13**19##", lambda i: f"*#13**19*{i}*2*3*4##", lambda i: datetime.timedelta(i, hours=2, minutes=3, seconds=4)),
    "power": (lambda c: EnergyManagement(c, "51").get_active_power(), "*#18*51*113##", lambda i: f"*#18*51*113*{i}{'*1' * i}##", float),
    "per_month": (lambda c: EnergyManagement(c, "51").get_energy_unit_per_month(4, 21), "*#18*51*52#21#4##", lambda i: f"*#18*51*52#21#4*{i}##", float),
}  # fmt: skip

WRONG_FOR = {
    "status": ["*#1*12*1*150*2##", "*#1*12*#1*150*2##", "*#1*12##", "*#1*12*1##", "*99*1##", "*#5##"],
    "dim": ["*1*1*12##", "*#1*12*#1*150*2##", "*#1*12##", "*#1*12*1##", "*99*1##", "*#5##"],
    "command": ["*1*1*12##", "*#1*12*1*150*2##", "*#1*12*#1*150*2##", "*#1*12##", "*#1*12*1##", "*99*1##", "*#5##", "*98*1##"],
}
# what follows an answer of another kind
AFTER = [[], [ACK], [NACK], ["*1*1*12##", NACK]]


def kind_of(name):
    if name in COMMANDS:
        return "command"
    if name in REQUESTS:
        return REQUESTS[name][2]
    return "dim"


def frame_of(name):
    return (COMMANDS.get(name) or REQUESTS.get(name) or SINGLES.get(name))[1]


def pick_script(pick, name, length, complete):
    """-> (frames, expected outcome)."""
    kind = kind_of(name)
    if kind == "command":
        options = [("ok", [ACK]), ("response", [NACK])]
        if not complete:
            options += [("timeout", [])] + [("response", [f, *e]) for f in WRONG_FOR["command"] for e in AFTER]
        how, frames = options[pick(len(options))]
        return frames, how, []
    answer = REQUESTS[name][3] if name in REQUESTS else SINGLES[name][2]
    n = pick(length + 1)
    which = [0] if n else []
    for _ in range(1, n):  # the same answer may come again
        which.append(max(which) + 1 if not pick(2) else which[0])
    frames = [answer(i) for i in which]
    ends = [("ok", [ACK]), ("response", [NACK])]
    if not complete:
        ends += [("timeout", [])] + [("response", [f, *e]) for f in WRONG_FOR[kind] for e in AFTER]
    how, end = ends[pick(len(ends))]
    if how == "ok" and name in SINGLES and not n:
        how = "response"
    return frames + end, how, which


def segments(frames, cut):
    if cut == "joined":
        return ["".join(frames)] if frames else []
    if cut == "bytes":
        return [c for f in frames for c in f]
    if cut == "shifted":
        s = "".join(frames)
        return [s[i : i + 5] for i in range(0, len(s), 5)]
    return list(frames)


class Gw:
    """Answers each command of the plan with its script; several commands may be announced at once."""

    def __init__(self, env, cut, delay):
        self.env, self.cut, self.delay = env, cut, delay
        self.plan = {}
        self.sent = []
        env.on_frame = self.on_frame

    def on_frame(self, f):
        if f.startswith("*99*"):
            self.env.send(ACK)
            return
        self.sent.append(f)
        frames = self.plan.pop(f, None)
        if frames is None:
            raise Violation(f"unexpected frame {f!r} on the wire (sent so far {self.sent})")
        if self.delay:
            t = self.env.now
            for i, fr in enumerate(frames):
                t += self.delay
                self.env.at(t, "answer", lambda fr=fr: self.env.send(*segments([fr], self.cut)))
        else:
            self.env.send(*segments(frames, self.cut))


async def outcome_of(coro, name, env):
    t0 = env.now
    try:
        v = await must(coro, name, limit=100)
        how = "ok"
    except ResponseError as e:
        v, how = e, "response"
    except TimeoutError as e:
        v, how = e, "timeout"
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{name} raised {type(e).__name__}: {e}")
    if how == "timeout" and env.now - t0 < 2:
        raise Violation(f"{name} gave up after {env.now - t0} s")
    return how, v


async def collect(gen, conv):
    return [conv(x) async for x in gen]


def judge(name, frames, how, n, got_how, got):
    if got_how != how:
        raise Violation(f"{name} answered {frames}: ended with {got_how} ({got!r}), expected {how}")
    if how == "ok":
        if name in COMMANDS:
            same(got, None, f"result of {name}")
        elif name in REQUESTS:
            same(got, [REQUESTS[name][4](i) for i in n], f"values yielded by {name} answered {frames}")
        else:
            same(got, SINGLES[name][3](0), f"value returned by {name} answered {frames}")


def prompt(name, frames, delay, taken):
    """The outcome is told when the closing answer arrives."""
    if frames and frames[-1] in (ACK, NACK) and taken > delay * len(frames) + 0.5:
        raise Violation(f"{name} answered {frames}, one every {delay} s, took {taken} s")


def call(name, c):
    if name in COMMANDS:
        return COMMANDS[name][0](c)
    if name in REQUESTS:
        return collect(REQUESTS[name][0](c), REQUESTS[name][5])
    return SINGLES[name][0](c)


def finish(env, main, log):
    k, v = env.run(main())
    if k == "raised":
        if isinstance(v, Violation):
            raise Violation(f"{v}; exchanges: {log}")
        raise v
    if k == "stuck":
        raise Violation(f"blocked ({v}); exchanges: {log}")


def single(rep, name, length, cut, delay, session, chooser=None):
    """One command of one kind with every script."""
    env = Env(horizon=10000.0)
    gw = Gw(env, cut, delay)
    log = []

    async def main():
        c = make_client(env, SessionType(session))
        await c.start()
        frames, how, n = pick_script(chooser.flip, name, length, False)
        log.append((name, frames))
        f = frame_of(name)
        gw.plan[f] = frames
        t0 = env.now
        got_how, got = await outcome_of(call(name, c), name, env)
        judge(name, frames, how, n, got_how, got)
        prompt(name, frames, delay, env.now - t0)
        same(gw.sent, [f], "frames sent")
        rep.cover("exchanges_" + how)

    finish(env, main, log)
    rep.sample(log)


MODES = ["all", "not_started", "first_only", "first_closed", "nested"]


def history(rep, names, depth, length, cut, delay, chooser=None):
    """A sequence of completed exchanges; the results of the requests are consumed in every way."""
    env = Env(horizon=100000.0)
    gw = Gw(env, cut, delay)
    log = []
    keep = []

    async def main():
        c = make_client(env)
        await c.start()
        for _ in range(depth):
            name = names[chooser.flip(len(names))]
            frames, how, n = pick_script(chooser.flip, name, length, True)
            mode = "all"
            if name in REQUESTS:
                mode = MODES[chooser.flip(len(MODES))]
            log.append((name, frames, mode))
            f = frame_of(name)
            gw.sent.clear()
            if mode == "all":
                gw.plan[f] = frames
                t0 = env.now
                got_how, got = await outcome_of(call(name, c), name, env)
                judge(name, frames, how, n, got_how, got)
                prompt(name, frames, delay, env.now - t0)
                same(gw.sent, [f], "frames sent")
                continue
            gen = REQUESTS[name][0](c)
            conv = REQUESTS[name][5]
            keep.append(gen)
            if mode == "not_started":
                await asyncio.sleep(0)
                same(gw.sent, [], "frames sent by a request not iterated")
                continue
            gw.plan[f] = frames
            if mode in ("first_only", "first_closed"):
                try:
                    v = await must(gen.__anext__(), name)
                    same(conv(v), REQUESTS[name][4](0), f"first value of {name} answered {frames}")
                    if not n:
                        raise Violation(f"{name} yielded {v} but received {frames}")
                except StopAsyncIteration:
                    if n or how != "ok":
                        raise Violation(f"{name} ended without values, answered {frames}")
                except ResponseError:
                    if how == "ok":
                        raise Violation(f"{name} raised ResponseError, answered {frames}")
                # the gateway completes the exchange in any case
                while env.segments or env.timed:
                    await asyncio.sleep(0.01)
                if mode == "first_closed":
                    await must(gen.aclose(), "aclose")
                same(gw.sent, [f], "frames sent")
            else:  # nested: a command for every value
                i = 0
                try:
                    while True:
                        v = await must(gen.__anext__(), name)
                        same(conv(v), REQUESTS[name][4](n[i] if i < len(n) else -1), f"value {i} of {name} answered {frames}")
                        while env.segments or env.timed:
                            await asyncio.sleep(0.01)
                        good = i % 2 == 0
                        gw.plan["*1*1*12##"] = [ACK] if good else [NACK]
                        h, got = await outcome_of(COMMANDS["light"][0](c), "light", env)
                        judge("light", [good], "ok" if good else "response", [], h, got)
                        i += 1
                except StopAsyncIteration:
                    if how != "ok" or i != len(n):
                        raise Violation(f"{name} ended after {i} values, answered {frames}")
                except ResponseError:
                    if how == "ok":
                        raise Violation(f"{name} raised ResponseError, answered {frames}")
                same(gw.sent, [f] + ["*1*1*12##"] * i, "frames sent")
        # whatever happened, the connection is in step: a last command is judged by its own answer
        gw.sent.clear()
        gw.plan["*1*1*12##"] = [ACK]
        h, got = await outcome_of(COMMANDS["light"][0](c), "light", env)
        judge("light", [ACK], "ok", [], h, got)
        rep.cover("histories")

    finish(env, main, log)
    rep.sample(log)


def many(rep, name, count, cut, delay, end):
    """Many answers to one request."""
    env = Env(horizon=1e7, max_iterations=10**7)
    gw = Gw(env, cut, delay)

    async def main():
        c = make_client(env)
        await c.start()
        which = [i % 7 for i in range(count)]
        answer = REQUESTS[name][3] if name in REQUESTS else SINGLES[name][2]
        frames = [answer(i) for i in which] + [ACK if end == "ok" else NACK]
        f = frame_of(name)
        gw.plan[f] = frames
        try:
            got_how, got = "ok", await must(call(name, c), name, limit=count * 6 + 100)
        except (ResponseError, TimeoutError) as e:
            got_how, got = "response" if isinstance(e, ResponseError) else "timeout", e
        judge(name, [f"{count} answers", end], end, which, got_how, got)
        same(gw.sent, [f], "frames sent")
        gw.plan["*1*1*12##"] = [NACK]
        judge("light", [NACK], "response", [], *await outcome_of(COMMANDS["light"][0](c), "light", env))
        rep.count(states=count, transitions=count, traces=1)
        rep.cover("long_exchanges")

    finish(env, main, [name, count, cut, delay, end])


def run(rep, tier):
    thorough = tier == "thorough"
    length = 5 if thorough else 3
    cases = []
    for name in [*COMMANDS, *REQUESTS, *SINGLES]:
        for cut in ("frames", "joined", "bytes", "shifted"):
            for delay in (0, 4, 4.9) if thorough else (0, 4):
                for session in ("9", "0"):
                    if session == "0" and (cut != "frames" or delay):
                        continue
                    cases.append((name, length, cut, delay, session))
    explore_all(rep, single, cases)
    counts = [20, 70, 130, 300, 1100] + ([5000] if thorough else [])
    rep.parallel_each(
        many,
        lambda: (
            (name, n, cut, delay, end)
            for name in [*REQUESTS, *SINGLES]
            for n in counts
            for cut, delay in (("frames", 0), ("joined", 0), ("shifted", 0), ("frames", 1), ("frames", 4))
            for end in ("ok", "response")
        ),
        limit=300,
    )
    cases = []
    groups = [
        ["light", "light_status"], ["zoom", "raw_dim"], ["hsv", "automation_status"], ["set_date", "firmware", "uptime"],
        ["enable", "power", "per_month"], ["timer_req", "up"], ["dimmer_status", "power_on"], ["bright_req", "work_req"],
        ["raw_status", "video"],
    ]  # fmt: skip
    for g in groups:
        for cut in ("frames", "joined", "bytes"):
            cases.append((g, 3 if thorough else 2, 2, cut, 0))
        cases.append((g, 2, 2, "frames", 4))
        if thorough:
            cases.append((g, 2, 3, "shifted", 4.9))
    explore_all(rep, history, cases)
