"""C12: concurrent commands on one client get their own answers.

2 to 4 tasks are started by the environment at any moment; the answers of the gateway arrive segment by
segment at any moment.  All the interleavings within the preemption bound are executed on the real code.
"""
import asyncio

from .c11 import ACK, COMMANDS, NACK, REQUESTS, SINGLES, segments
from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .vloop import Env, Event
from pyown.exceptions import ResponseError
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.energy.stop_go import StopGo
from pyown.items.gateway import Gateway
from pyown.items.lighting import Dimmer, Light

ASSUMPTIONS = [
    "the gateway answers commands in the order it receives them, and only those",
    "cancelling a task in the middle of an exchange is not claimed",
]


async def lst(gen, conv):
    return [conv(x) async for x in gen]


async def first(gen, conv):
    """Only the first value is used."""
    async for x in gen:
        return [conv(x)]
    return []


async def slow(gen, conv):
    """The consumer does something else between the values."""
    out = []
    async for x in gen:
        await asyncio.sleep(0)
        out.append(conv(x))
    return out


async def raises(coro):
    try:
        await coro
    except ResponseError:
        return "refused"
    return "accepted"


async def silent(coro):
    try:
        await coro
    except TimeoutError:
        return "timeout"
    return "accepted"


def pair(t):
    return [t[0].string, t[1] if isinstance(t[1], (bool, int)) else str(t[1])]


# operation k of a task -> (coroutine, [frame], answers, result); k makes every exchange unique
def op(name, c, k):
    a = f"{k}1"
    if name == "on":
        return raises(Light(c, a).turn_on()), f"*1*1*{a}##", [ACK], "accepted"
    if name == "nack":
        return raises(Light(c, a).turn_off()), f"*1*0*{a}##", [NACK], "refused"
    if name == "zoom":
        what = ["120", "121", "130", "131", "140", "141"][k]
        cam = Camera(c, "4000")
        call = [cam.zoom_in, cam.zoom_out, cam.increase_x_coordinate, cam.decrease_x_coordinate, cam.increase_y_coordinate, cam.decrease_y_coordinate][k]
        return raises(call()), f"*7*{what}##", [ACK], "accepted"
    if name == "hsv":
        return raises(Dimmer(c, a).set_hsv(k, 2, 3)), f"*#1*{a}*#12*{k}*2*3##", [ACK], "accepted"
    if name == "equal":
        return raises(Light(c, "88").turn_on()), "*1*1*88##", [ACK], "accepted"
    if name == "equalstatus":
        return lst(Light(c, "88").get_status(), pair), "*#1*88##", ["*1*1*88##", ACK], [["88", True]]
    if name == "silent":
        return silent(Automation(c, a).up()), f"*2*1*{a}##", [], "timeout"
    if name in ("status", "status1", "statusslow"):
        f = {"status": lst, "status1": first, "statusslow": slow}[name]
        vals = [[f"{k}2", True], [f"{k}3", False]]
        return (
            f(Light(c, a).get_status(), pair), f"*#1*{a}##", [f"*1*1*{k}2##", f"*1*0*{k}3##", ACK],
            vals[:1] if name == "status1" else vals,
        )  # fmt: skip
    if name == "auto":
        return lst(Automation(c, a).get_status(), pair), f"*#2*{a}##", [f"*2*{k % 3}*{k}4##", ACK], [[f"{k}4", str(k % 3)]]
    if name == "dim":
        return (
            lst(Light(c, a).request_working_time_lamp(), pair), f"*#1*{a}*8##", [f"*#1*{k}5*8*{k}7##", f"*#1*{k}6*8*{k}8##", ACK],
            [[f"{k}5", k * 10 + 7], [f"{k}6", k * 10 + 8]],
        )  # fmt: skip
    if name == "power":
        return EnergyManagement(c, f"5{k}").get_active_power(), f"*#18*5{k}*113##", [f"*#18*5{k}*113*{k}9##", ACK], k * 10.0 + 9
    if name == "gw":
        dims = [("16", "get_firmware"), ("23", "get_kernel_version"), ("24", "get_distribution_version")]
        d, m = dims[k % 3]
        return getattr(Gateway(c), m)(), f"*#13**{d}##", [f"*#13**{d}*{k}*2*3##", ACK], f"{k}.2.3"
    if name == "stopgo":
        async def st():
            r = await StopGo(c, f"1{k}").request_status()
            return [r.open, r.failure]
        return st(), f"*#18*1{k}*250##", [f"*#18*1{k}*250*000000000000{k % 2}##", ACK], [bool(k % 2), False]
    if name == "netinfo":
        async def ni():
            return str(await Gateway(c).get_netinfo())
        return ni(), ["*#13**10##", "*#13**11##"], {"*#13**10##": ["*#13**10*192*168*1*35##", ACK], "*#13**11##": ["*#13**11*255*255*255*0##", ACK]}, "192.168.1.0/24"
    raise KeyError(name)


def concurrent(rep, tasks, cut, delay, how, chooser=None):
    """tasks: list of lists of operations; task i runs its operations one after the other."""
    env = Env(chooser, horizon=10000.0)
    env.preempt = True
    answers = {}
    sent = []
    due = []  # the frames of the operations

    def on_frame(f):
        if f.startswith("*99*"):
            env.send(ACK)
            return
        if env.segments or env.timed:
            raise Violation(f"{f!r} sent before the answer to {sent[-1]!r} had arrived")
        sent.append(f)
        if f not in answers:
            raise Violation(f"unexpected frame {f!r}")
        if sent.count(f) > due.count(f):
            raise Violation(f"{f!r} sent {sent.count(f)} times")
        segs = segments(answers[f], cut)
        if delay:
            for i, s in enumerate(segs):
                env.at(env.now + delay * (i + 1), "answer", lambda s=s: env.send(s))
        else:
            env.send(*segs)

    env.on_frame = on_frame
    done = []

    async def main():
        c = make_client(env)
        await c.start()
        running = []
        k = 0

        def plan(names):
            nonlocal k
            ops = []
            for n in names:
                coro, frame, ans, want = op(n, c, k)
                k += 1
                if isinstance(ans, dict):
                    answers.update(ans)
                    due.extend(ans)
                else:
                    answers[frame] = ans
                    due.append(frame)
                ops.append((n, coro, want))
            return ops

        async def task(ops):
            for n, coro, want in ops:
                got = await coro
                same(got, want, f"result of {n} among {tasks}")
                done.append(n)

        plans = [plan(t) for t in tasks]
        env.exploring = True
        gate = asyncio.Event()
        if how == "together":
            running = [asyncio.ensure_future(task(p)) for p in plans]
            gate.set()
        else:
            for i, p in enumerate(plans):

                def start(p=p):
                    running.append(asyncio.ensure_future(task(p)))
                    if len(running) == len(plans):
                        gate.set()

                env.actions.append(Event(f"start{i}", start))
        await gate.wait()
        await must(asyncio.gather(*running), "the concurrent commands", limit=1000)
        await settle(4)
        if env.segments:
            raise Violation(f"answers not read: {env.segments}")
        # nothing is left over for the next command
        answers["*1*1*99##"] = [ACK]
        due.append("*1*1*99##")
        await must(Light(c, "99").turn_on(), "the command after the concurrent ones")
        same(sorted(sent), sorted(due), "frames sent")

    k, v = env.run(main())
    if k == "raised":
        if isinstance(v, Violation):
            raise Violation(f"{v}; frames {sent}")
        raise Violation(f"{type(v).__name__}: {v}; frames {sent}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); frames {sent}; completed {done}")
    rep.sample(list(sent))


def run(rep, tier):
    thorough = tier == "thorough"
    kinds = ["on", "nack", "zoom", "hsv", "status", "status1", "statusslow", "auto", "dim", "power", "gw", "stopgo", "netinfo"]
    cases = []
    for i, a in enumerate(kinds):
        for b in kinds[i:]:
            if a == b == "netinfo":
                continue
            cases.append(([[a], [b]], "frames", 0, "actions"))
            if thorough:
                cases.append(([[a], [b]], "joined", 0, "actions"))
                cases.append(([[a], [b]], "shifted", 0, "actions"))
    for a in kinds:
        cases.append(([["silent"], [a]], "frames", 0, "actions"))
        cases.append(([["on"], [a]], "joined", 0, "together"))
        cases.append(([["status"], [a]], "frames", 3, "actions"))
    # the same command by several tasks
    for t in ([["equal"], ["equal"]], [["equalstatus"], ["equalstatus"]], [["equal", "equal"], ["nack"]], [["equal"], ["equalstatus", "equal"]]):
        cases += [(t, "frames", 0, "actions"), (t, "joined", 0, "together"), (t, "frames", 1, "actions")]
    explore_all(rep, concurrent, cases, bound=3 if thorough else 2)
    three = [
        [["on"], ["nack"], ["status"]], [["status"], ["dim"], ["power"]], [["zoom"], ["gw"], ["auto"]],
        [["on", "nack"], ["nack", "on"]], [["status", "on"], ["dim", "power"]], [["statusslow", "nack"], ["on", "status1"]],
        [["hsv"], ["stopgo"], ["nack"]], [["netinfo"], ["power"], ["on"]], [["silent"], ["status"], ["nack"]],
        [["on", "on"], ["nack", "nack"]], [["status1", "status1"], ["dim", "nack"]], [["netinfo", "gw"], ["status"]],
    ]  # fmt: skip
    cases = [(t, "frames", 0, "actions") for t in three] + [(t, "joined", 0, "together") for t in three]
    explore_all(rep, concurrent, cases, bound=2 if thorough else 1)
    # long queues: the last one waits for minutes
    crowd = [
        [["on"]] * 12, [["nack"]] * 12, [["status"]] * 8, [["dim"]] * 8, [["power"]] * 12, [["silent"]] * 4 + [["on"]] * 4,
        [["hsv"], ["status"], ["nack"], ["power"]] * 3, [["on", "status"], ["nack", "dim"]] * 3, [["zoom"]] * 6,
    ]  # fmt: skip
    for t in crowd:
        cases = [(t, cut, d, "together") for cut, d in (("frames", 0), ("frames", 4), ("frames", 4.9), ("joined", 4))]
        explore_all(rep, concurrent, cases, bound=0)
    explore_all(rep, concurrent, [([["on"]] * 60, "frames", 4, "together"), ([["status"]] * 40, "frames", 0, "together")], bound=0)
    four = [[["on"], ["nack"], ["status"], ["power"]], [["status"], ["status"], ["dim"], ["zoom"]], [["nack"], ["on"], ["gw"], ["auto"]]]
    explore_all(rep, concurrent, [(t, "joined", 0, "actions") for t in four], bound=1)
    explore_all(rep, concurrent, [(t, cut, 0, "together") for t in four for cut in ("joined", "frames")], bound=2 if thorough else 1)
