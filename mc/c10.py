"""C10: operations are allowed only in the session state that supports them.

All the sequences of operations up to a depth, executed on the real client with a gateway on the virtual
loop, against the model idle <-> started (a refused, unreachable or silent gateway leaves the client idle;
a dropped session only allows to close it or to start again).
"""
import asyncio

from . import cbs
from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .c09 import Dialogue
from .util import ACK, NACK
from .vloop import Env, Event
from pyown.exceptions import InvalidAuthentication, InvalidSession
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.gateway import Gateway
from pyown.items.lighting import Dimmer, Light

ASSUMPTIONS = [
    "starting a client that is already started is not claimed, and neither is what a session dropped by the "
    "gateway allows, apart from closing it and starting it again",
]

EVENT = "*2*1*77##"


async def listed(gen):
    return [x async for x in gen]


# item operations: (call, frame, answers, result)
ITEMS = {
    "light": (lambda c: Light(c, "12").turn_on(), "*1*1*12##", [ACK], None),
    "dimmer": (lambda c: Dimmer(c, "12").set_hsv(1, 2, 3), "*#1*12*#12*1*2*3##", [ACK], None),
    "camera": (lambda c: Camera(c, "4000").zoom_in(), "*7*120##", [ACK], None),
    "status": (lambda c: listed(Automation(c, "33").get_status()), "*#2*33##", ["*2*2*33##", ACK], [("33", "2")]),
    "gateway": (lambda c: Gateway(c).get_firmware(), "*#13**16##", ["*#13**16*1*2*3##", ACK], "1.2.3"),
    "energy": (lambda c: EnergyManagement(c, "51").get_active_power(), "*#18*51*113##", ["*#18*51*113*42##", ACK], 42.0),
}


class Model:
    def __init__(self, session):
        self.cmd = session != "1"
        self.state = "idle"
        self.connected = False
        self.pending = 0  # messages received and not read

    def enabled(self, items):
        if self.state == "dropped":
            return ["close", "start"]
        ops = ["send", "fsend", "close", *items]
        if self.state != "looping":
            ops += ["read", "loop"]
        if self.state == "idle":
            ops += ["start", "unreachable", "refused", "silent"]
        if self.state in ("started", "looping"):
            ops += ["push", "drop"] if self.state == "started" else ["drop"]
        return ops


async def invalid_session(coro, what):
    try:
        r = await must(coro, what)
    except InvalidSession:
        return
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__} ({e}) instead of InvalidSession")
    raise Violation(f"{what} returned {r!r} instead of raising InvalidSession")


def sequence(rep, session, depth, items, outside=False, chooser=None):
    """outside: the client is created before its loop runs, and given the loop."""
    env = Env(horizon=10000.0)
    early = Client("192.168.1.35", 20000, "12345", SessionType(session), loop=env.loop) if outside else None
    m = Model(session)
    ops = []
    answers = {v[1]: v[2] for v in ITEMS.values()}
    sent = []
    mode = {"answer": ACK, "handshake": 0}

    def on_frame(f):
        if mode["handshake"] == 1:
            mode["handshake"] = 2
            same(f, f"*99*{session}##", "session frame")
            if mode["answer"] is not None:
                env.send(mode["answer"])
            return
        sent.append(f)
        for a in answers.get(f, []):
            env.send(a)

    env.on_frame = on_frame
    calls = []

    async def handler(name, item, args):
        calls.append((name, str(item.where), [str(a) for a in args]))

    async def main():
        c = early or make_client(env, SessionType(session))
        loops = []
        n = 0
        for _ in range(depth):
            en = m.enabled(items)
            op = en[chooser.flip(len(en))]
            ops.append(op)
            started = m.state in ("started", "looping")
            want = []  # frames expected on the wire for this operation
            sent.clear()
            n += 1
            if op == "start":
                mode["handshake"], mode["answer"] = 1, ACK
                await must(c.start(), "start")
                m.state, m.connected, m.pending = "started", True, 0
            elif op == "unreachable":
                env.connect_error = ConnectionRefusedError("refused")
                try:
                    await c.start()
                except TimeoutError:
                    pass
                else:
                    raise Violation("start() succeeded without a gateway")
                env.connect_error = None
            elif op in ("refused", "silent"):
                mode["handshake"], mode["answer"] = 1, NACK if op == "refused" else None
                try:
                    await must(c.start(), "start")
                except InvalidAuthentication:
                    if op == "silent":
                        raise Violation("start() raised InvalidAuthentication with a silent gateway")
                except TimeoutError:
                    if op == "refused":
                        raise Violation("start() raised TimeoutError although the gateway refused it")
                else:
                    raise Violation(f"start() succeeded although the gateway was {op}")
                await settle()
                if not env.transport.lost or not env.transport.conn_lost_called:
                    raise Violation(f"the connection of a failed start is still open (gateway {op})")
            elif op == "close":
                await must(c.close(), "close")
                await settle()
                if m.connected:
                    if not env.transport.lost or not env.transport.conn_lost_called:
                        raise Violation("the connection is still open after close()")
                    m.connected = False
                for t in loops:
                    await must(t, "loop after close")
                loops.clear()
                m.state = "idle"
            elif op in ("send", "fsend"):
                f = f"*1*{n}*12##"
                coro = c.send_message(parse_message(f), force=True) if op == "fsend" else c.send_message(parse_message(f))
                if started and (m.cmd or op == "fsend"):
                    await must(coro, op)
                    want = [f]
                else:
                    await invalid_session(coro, f"{op} in state {m.state}")
            elif op == "push":
                env.send(f"*1*0*{n}##")
                await drain(env)
                m.pending += 1
            elif op == "read":
                if started:
                    if m.pending:
                        r = await must(c.read_message(), "read")
                        m.pending -= 1
                        first = [i + 1 for i, o in enumerate(ops) if o == "push"][-m.pending - 1]  # (unread ones are of this session)
                        same(str(r), f"*1*0*{first}##", "message read")
                    else:
                        try:
                            r = await must(c.read_message(timeout=1), "read")
                        except TimeoutError:
                            pass
                        else:
                            raise Violation(f"read returned {r} although nothing was received")
                else:
                    await invalid_session(c.read_message(timeout=1), f"read in state {m.state}")
                    await invalid_session(c.read_message(timeout=None), f"read without timeout in state {m.state}")
            elif op == "loop":
                if not m.cmd and started:
                    t = asyncio.ensure_future(c.loop())
                    loops.append(t)
                    calls.clear()
                    env.send(EVENT)
                    await drain(env)
                    await settle(30)
                    got = sorted(x for x in calls if x[0].startswith("automation"))
                    same(got, [(k, "77", ["1"]) for k in cbs.of_kind("automation")], "calls for an event in the loop")
                    if t.done():
                        raise Violation("the loop ended with the connection alive")
                    m.state = "looping"
                    m.pending = 0
                else:
                    await invalid_session(c.loop(), f"loop in state {m.state}")
            elif op == "drop":
                env.drop()
                await drain(env)
                for t in loops:
                    await must(asyncio.wait([t]), "loop after a drop")
                loops.clear()
                m.state, m.connected = "dropped", False
            else:
                call, frame, ans, result = ITEMS[op]
                if started and m.cmd and m.pending == 0:
                    r = await must(call(c), op)
                    want = [frame]
                    if isinstance(result, list):
                        r = [(w.string, str(s)) for w, s in r]
                    same(r, result, f"result of {op}")
                elif started and m.cmd:
                    # an unsolicited message is in the way: not claimed
                    return
                else:
                    await invalid_session(call(c), f"item command {op} in state {m.state}")
            same(sent, want, f"frames on the wire after {op}")
            await settle(3)
            same(sent, want, f"frames on the wire after {op}")
        return

    cbs.use(handler)
    try:
        k, v = env.run(main())
    except Violation:
        raise
    finally:
        cbs.use(None)
    if k == "raised":
        if isinstance(v, Violation):
            raise Violation(f"{v}; operations: {ops}")
        raise Violation(f"{type(v).__name__}: {v}; operations: {ops}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); operations: {ops}")
    rep.cover("sequences")
    if m.state == "looping":
        rep.cover("sequences_with_running_loop")
    rep.sample(ops)


PATHS = {
    "none": ["ack", "ack"],
    "open": ["ack", "nonce0", "ack"],
    "sha1": ["ack", "alg1", "key0", "proof"],
    "sha256": ["ack", "alg2", "key3", "proof"],
    "refused": ["ack", "nack"],
    "wrong": ["ack", "nonce0", "nack"],
}
MEANWHILE = {
    "send": lambda c: c.send_message(parse_message("*1*1*12##")),
    "fsend": lambda c: c.send_message(parse_message("*1*1*12##"), force=True),
    "read": lambda c: c.read_message(timeout=3),
    "read_long": lambda c: c.read_message(timeout=None),
    "loop": lambda c: c.loop(),
    **{k: v[0] for k, v in ITEMS.items()},
}


class Fixed(Dialogue):
    """A gateway that answers as told."""

    def __init__(self, env, path, session, split, delay):
        super().__init__(env, None, session, "12345", split, delay)
        self.path = list(path)

    def step(self, options):
        name = self.path.pop(0)
        self.steps.append(name)
        return name


def meanwhile(rep, session, path, ops, split, delay, chooser=None):
    """Other tasks use the client at any moment of its start(): they are refused, and the handshake goes on."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    d = Fixed(env, PATHS[path], session, split, delay)
    began, done = [], []

    async def main():
        c = make_client(env, SessionType(session))
        orig = env._connected

        def connected(tr):
            orig(tr)
            d.connected()

        env._connected = connected
        other = []

        async def use(name):
            early = not start.done() and d.state != "over"
            began.append(early)
            t0 = env.now
            try:
                await MEANWHILE[name](c)
                got = "done"
            except InvalidSession:
                got = "InvalidSession"
            except TimeoutError:
                got = "TimeoutError"
            done.append((name, early, got, env.now - t0))

        env.exploring = True
        start = asyncio.ensure_future(c.start())
        if delay:
            # between the answers of the gateway
            for k, name in enumerate(ops):
                env.at(env.now + delay * (k + 0.5), name, lambda name=name: other.append(asyncio.ensure_future(use(name))))
        else:
            for name in ops:
                env.actions.append(Event(name, lambda name=name: other.append(asyncio.ensure_future(use(name)))))
        await asyncio.wait([start], timeout=100)
        while env.actions or env.timed:
            await asyncio.sleep(0.01)
        env.exploring = False
        await settle(10)
        if not start.done():
            raise Violation(f"start() never ends, while {ops} by others")
        e = start.exception()
        good = d.expect_end == "ok"
        got = "ok" if e is None else "auth" if isinstance(e, InvalidAuthentication) else repr(e)
        same(got, "ok" if good else "auth", f"outcome of start(), the gateway answering {PATHS[path]}, while others tried {done}")
        same(sum(early for _, early, _, _ in done), sum(began), "operations begun during the handshake that ended")
        for name, early, how, took in done:
            if early and how != "InvalidSession":
                raise Violation(f"{name} during the handshake ended with {how}")
            if early and took > 0.5:
                raise Violation(f"{name} during the handshake was refused only after {took} s")
        if all(began):
            same(len(done), len(ops), "operations that ended")
            d.check_sent(env.frames)
            if good:
                # the session works
                env.on_frame = lambda f: env.send(ACK)
                if session == "1":
                    env.send(EVENT)
                    same(str(await must(c.read_message(), "read")), EVENT, "first event")
                else:
                    await must(Light(c, "15").turn_on(), "command")
        rep.cover("during_start")

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"blocked ({v}) while others tried {ops}: {done}")
    rep.sample([session, path, ops, done])


def run(rep, tier):
    depth = 7 if tier == "thorough" else 5
    cases = [(s, depth, ["light"]) for s in ("9", "0", "1")]
    cases += [(s, depth - 1, [i, "status"]) for s in ("9", "0", "1") for i in ("dimmer", "camera", "gateway", "energy")]
    cases += [(s, depth - 1, ["light"], True) for s in ("9", "0", "1")]
    explore_all(rep, sequence, cases)
    cases = []
    for s in ("9", "0", "1"):
        for path in PATHS:
            for op in MEANWHILE:
                for split in ("whole", "half"):
                    cases.append((s, path, [op], split, 0))
                # one in each interval between the frames of the gateway
                cases.append((s, path, [op] * len(PATHS[path]), "whole", 1.0))
    explore_all(rep, meanwhile, cases, bound=4 if tier == "thorough" else 3)
    pairs = [("9", p, [a, b], "whole", 0) for p in ("open", "none") for a in MEANWHILE for b in ("light", "read", "status")]
    explore_all(rep, meanwhile, pairs, bound=3 if tier == "thorough" else 2)
