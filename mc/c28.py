"""C28: the clients of one program work together without disturbing each other.

`reacting`: an event client whose loop is given a command client; the callbacks send commands through their
items.  `apart`: two clients of any session type, one of which may suffer any fault.  `together`: the
handshakes of two clients interleaved.  All the interleavings of what the two gateways send (events, segments
of answers, faults) within the preemption bound.
"""
import asyncio
import itertools

from . import cbs
from .c12 import op
from .c14 import judge
from .core import CheckError, Violation, same
from .explore import explore_all
from .openalg import answer
from .util import *  # noqa: F401,F403
from .util import ACK, NACK
from .vloop import Env, Event
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy import EnergyManagement, StopGo
from pyown.items.gateway import Gateway
from pyown.items.lighting import Light
from pyown.tags import Where, Who
from pyown.exceptions import InvalidAuthentication, InvalidSession, ResponseError

ASSUMPTIONS = [
    "each gateway answers only what it is asked on its own connection",
    "an item is not given another client while one of its commands is in progress",
]


class Side:
    """The gateway of one connection of several."""

    def __init__(self, env, tr, session, nonce=None, password="12345"):
        self.env, self.tr, self.session, self.nonce, self.password = env, tr, session, nonce, password
        self.step = 0
        self.sent = []
        self.answers = {}
        self.refuse = False

    def on_frame(self, f):
        env, tr = self.env, self.tr
        self.step += 1
        if self.step == 1:
            same(f, f"*99*{self.session}##", "session frame")
            if self.nonce:
                env.send(f"*#{self.nonce}##", tr=tr)
            else:
                env.send(NACK if self.refuse else ACK, tr=tr)
                self.step = 2
            return
        if self.step == 2:
            same(f, f"*#{answer(self.password, self.nonce)}##", f"answer to the nonce {self.nonce} with the password {self.password}")
            env.send(NACK if self.refuse else ACK, tr=tr)
            return
        if tr.segments and self.session != "1":
            raise Violation(f"{f!r} sent before the answer to {self.sent[-1:]} had arrived")
        if f not in self.answers:
            raise Violation(f"unexpected frame {f!r} on the connection of session {self.session}, before {self.sent}")
        self.sent.append(f)
        a = self.answers[f]
        if isinstance(a, list) and a and isinstance(a[0], list):
            a = a.pop(0) if len(a) > 1 else a[0]
        env.send(*a, tr=tr)


class Sides:
    def __init__(self, env, plans):
        self.env, self.plans = env, list(plans)
        self.of = {}
        self.list = []
        env.on_connected = self.on_connected
        env.on_frame_of = lambda tr, f: self.of[tr].on_frame(f)

    def on_connected(self, tr):
        s = Side(self.env, tr, *self.plans[len(self.list)])
        self.of[tr] = s
        self.list.append(s)


def finish(rep, env, main, what):
    try:
        k, v = env.run(main())
    finally:
        cbs.use(None)
    if k == "raised":
        raise Violation(f"{v if isinstance(v, Violation) else repr(v)}; {what}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); {what}")
    rep.sample(what)


# what a callback does with its item -> (frame, answers, result) for that item's address
def reaction(kind, item):
    w = str(item.where)
    if kind == "on":
        return item.turn_on(), f"*1*1*{w}##", [ACK], "done"
    if kind == "off_refused":
        return item.turn_off(), f"*1*0*{w}##", [NACK], "ResponseError"
    if kind == "status":
        async def status():
            same([(a.string, b) async for a, b in item.get_status()], [(w, True), ("99", False)], f"status of {w}")

        return status(), f"*#1*{w}##", [f"*1*1*{w}##", "*1*0*99##", ACK], "done"
    if kind == "silent":
        return item.turn_on(), f"*1*1*{w}##", [], "TimeoutError"
    raise CheckError(kind)


def reacting(rep, frames, react, who, cut, blocking, chooser=None):
    """One callback (`who`) reacts to the light events; the answers and the events arrive in any order."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    sides = Sides(env, [("1",), ("9",)])
    calls, results = [], []
    lights = [f for f in frames if f.startswith("*1*")]

    async def handler(name, item, args):
        calls.append((name, item, args))
        if name != who:
            if blocking:
                await asyncio.get_running_loop().create_future()
            return
        coro, frame, ans, want = reaction(react, item)
        try:
            await coro
            got = "done"
        except (ResponseError, TimeoutError, InvalidSession) as e:
            got = type(e).__name__
        results.append((str(item.where), got, want))

    async def main():
        ev = make_client(env, SessionType.EventSession)
        await ev.start()
        cmd = make_client(env, SessionType.CommandSession)
        await cmd.start()
        e, c = sides.list
        expected = []
        for f in lights:
            item = ev.get_item(parse_message(f).who, parse_message(f).where, client=cmd)
            coro, frame, ans, want = reaction(react, item)
            coro.close()
            c.answers[frame] = [ans, ans, ans, ans]
            expected.append(frame)
        cbs.use(handler)
        t = asyncio.ensure_future(ev.loop(client=cmd))
        await settle(3)
        env.exploring = True
        if cut == "joined":
            env.send("".join(frames), tr=e.tr)
        elif cut == "halves":
            for f in frames:
                env.send(f[:4], f[4:], tr=e.tr)
        else:
            env.send(*frames, tr=e.tr)
        # the events are all dispatched even if no command ever completes
        for _ in range(2000):
            if not e.tr.segments and not c.tr.segments and len(results) == len(lights):
                break
            await asyncio.sleep(0.01)
        env.exploring = False
        await settle(30)
        judge(frames, calls, ev, cmd)
        if t.done():
            raise Violation(f"the loop ended ({t!r}) while its connection is alive")
        same(sorted(results), sorted((str(parse_message(f).where), results[0][2] if results else None, results[0][2] if results else None) for f in lights), "outcomes of the commands of the callbacks")
        same(sorted(c.sent), sorted(expected), "frames on the command connection")
        same(e.sent, [], "frames on the event connection")
        # both sessions go on
        calls.clear()
        env.send("*2*1*77##", tr=e.tr)
        while e.tr.segments:
            await asyncio.sleep(0.001)
        await settle(30)
        judge(["*2*1*77##"], calls, ev, cmd)
        await ev.close()
        await asyncio.wait([t], timeout=5)
        if not t.done():
            raise Violation("the loop still waits after close()")
        coro, frame, ans, want = op("status", cmd, 3)
        c.answers[frame] = ans
        same(await must(coro, "status"), want, "status after the event client was closed")
        rep.cover("reactions", len(lights))

    finish(rep, env, main, [frames, react, who, cut, blocking])


def undelivered(rep, frames, react, who, chooser=None):
    """The command gateway never answers: the events are dispatched all the same, before any timeout."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    sides = Sides(env, [("1",), ("9",)])
    calls = []

    async def handler(name, item, args):
        calls.append((name, item, args))
        if name == who:
            await reaction(react, item)[0]

    async def main():
        ev = make_client(env, SessionType.EventSession)
        await ev.start()
        cmd = make_client(env, SessionType.CommandSession)
        await cmd.start()
        e, c = sides.list
        c.on_frame = lambda f: None
        cbs.use(handler)
        t = asyncio.ensure_future(ev.loop(client=cmd))
        await settle(3)
        env.exploring = True
        env.send(*frames, tr=e.tr)
        while e.tr.segments:
            await asyncio.sleep(0.001)
        env.exploring = False
        await settle(30)
        judge(frames, calls, ev, cmd)
        if t.done():
            raise Violation(f"the loop ended ({t!r}) while its connection is alive")
        if env.now > 2:
            raise Violation(f"the events were dispatched after {env.now} s")
        rep.cover("events_with_pending_commands", len(frames))

    finish(rep, env, main, [frames, react, who])


def illegal(rep, frames, react, who, cut, chooser=None):
    """The loop without a command client: a command of a callback is refused, and no event is lost."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    calls, results = [], []
    lights = [f for f in frames if f.startswith("*1*")]

    async def handler(name, item, args):
        calls.append((name, item, args))
        if name == who:
            try:
                await reaction(react, item)[0]
            except InvalidSession:
                results.append("InvalidSession")

    async def main():
        c, s = await started(env, SessionType.EventSession)
        cbs.use(handler)
        t = asyncio.ensure_future(c.loop())
        await settle(3)
        env.exploring = True
        env.send(*(["".join(frames)] if cut == "joined" else frames))
        while env.segments:
            await asyncio.sleep(0.001)
        env.exploring = False
        await settle(40)
        judge(frames, calls, c, c)
        same(results, ["InvalidSession"] * len(lights), "outcomes of commands on an event session")
        same(s.frames, [], "frames on the event connection")
        if t.done():
            raise Violation(f"the loop ended ({t!r}) while its connection is alive")
        rep.cover("refused_reactions", len(lights))

    finish(rep, env, main, [frames, react, who, cut])


def late(rep, ops, react, reuse):
    """The command client given to the loop is started, closed and started again: E event, S start, X close."""
    env = Env(horizon=1e5, max_iterations=10**6)
    sides = Sides(env, [("1",)] + [("9",)] * len(ops))
    results = []

    async def handler(name, item, args):
        if name != "light_status.light":
            return
        try:
            await reaction(react, item)[0]
            got = "done"
        except (ResponseError, TimeoutError, InvalidSession) as e:
            got = type(e).__name__
        results.append((item, got))

    async def main():
        ev = make_client(env, SessionType.EventSession)
        await ev.start()
        e = sides.list[0]
        cmd = make_client(env, SessionType.CommandSession)
        cbs.use(handler)
        t = asyncio.ensure_future(ev.loop(client=cmd))
        await settle(3)
        up, k, items = False, 0, {}
        for n, o in enumerate(ops):
            if o == "S":
                await must(cmd.start(), "start")
                up = True
                continue
            if o == "X":
                await must(cmd.close(), "close")
                up = False
                continue
            where = "12" if reuse else str(12 + k)
            k += 1
            coro, frame, ans, want = reaction(react, _Where(where))
            coro.close()
            if up:
                sides.list[-1].answers[frame] = ans
                before = len(sides.list[-1].sent)
            results.clear()
            env.send(f"*1*1*{where}##", tr=e.tr)
            while e.tr.segments:
                await asyncio.sleep(0.001)
            for _ in range(50):
                if results:
                    break
                await asyncio.sleep(0.01)
            if [x[1] for x in results] != [want if up else "InvalidSession"]:
                raise Violation(f"step {n}: a command of a callback ended with {[x[1] for x in results]}, the command client is {'started' if up else 'not started'}")
            item = results[0][0]
            if item.client is not cmd:
                raise Violation(f"step {n}: the item is not bound to the client given to the loop")
            if items.setdefault(where, item) is not item:
                raise Violation(f"step {n}: two items for {where}")
            if up:
                same(sides.list[-1].sent[before:], [frame], f"step {n}: frames sent")
            same(e.sent, [], "frames on the event connection")
            if t.done():
                raise Violation(f"the loop ended ({t!r}) while its connection is alive")
        rep.count(states=len(ops), transitions=len(ops), traces=1)
        rep.cover("late_command_clients")

    finish(rep, env, main, [ops, react, reuse])


class _Where:
    """Just an address, for the frame that is expected."""

    def __init__(self, where):
        self.where = where

    def turn_on(self):
        return self._nothing()

    turn_off = turn_on

    async def _nothing(self):
        pass

    def get_status(self):
        raise CheckError("not used")


ITEMS = {
    "light": (lambda c: Light(c, "12"), [(lambda i: i.turn_on(), "*1*1*12##"), (lambda i: i.temporization_command(1, 2, 3), "*#1*12*#2*1*2*3##")]),
    "dimmer": (lambda c: c.get_item(Who.LIGHTING, Where("0115"), client=c), [(lambda i: i.turn_off(), "*1*0*0115##"), (lambda i: i.turn_on(), "*1*1*0115##")]),
    "automation": (lambda c: Automation(c, "12"), [(lambda i: i.up(), "*2*1*12##"), (lambda i: i.stop(), "*2*0*12##")]),
    "camera": (lambda c: Camera(c, "4001"), [(lambda i: i.zoom_in(), "*7*120##"), (lambda i: i.receive_video(), "*7*0*4001##")]),
    "gateway": (lambda c: Gateway(c), [(lambda i: i.get_ip(), "*#13**10##"), (lambda i: i.get_firmware(), "*#13**16##")]),
    "energy": (lambda c: EnergyManagement(c, "51"), [(lambda i: i.start_sending_instant_power(5), "*#18*51*#1200#1*5##"), (lambda i: i.get_active_power(), "*#18*51*113##")]),
    "stopgo": (lambda c: StopGo(c, "11"), [(lambda i: i.enable_automatic_reset(), "*18*26*11##"), (lambda i: i.request_status(), "*#18*11*250##")]),
}


def rebound(rep, kind, ops):
    """An item is given other clients: a, b: that client, n: one not started, v: an event session; 0, 1: a command."""
    env = Env(horizon=1e5, max_iterations=10**6)
    sides = Sides(env, [("9",), ("9",), ("1",)])
    make, calls = ITEMS[kind]

    async def main():
        clients = {}
        for n in "ab":
            clients[n] = make_client(env)
            await clients[n].start()
        clients["v"] = make_client(env, SessionType.EventSession)
        await clients["v"].start()
        clients["n"] = make_client(env)
        of = dict(zip("abv", sides.list))
        for s in sides.list:
            s.answers = {f: [NACK] for _, f in calls}
        item, cur = make(clients["a"]), "a"
        for k, o in enumerate(ops):
            if o in "abnv":
                item.client = clients[o]
                cur = o
                if item.client is not clients[o]:
                    raise Violation(f"step {k} of {ops}: the client of the item is not the one it was given")
                continue
            call, frame = calls[int(o)]
            before = {n: len(s.sent) for n, s in of.items()}
            try:
                await must(call(item), "command")
                got = "done"
            except (ResponseError, InvalidSession) as e:
                got = type(e).__name__
            same(got, "ResponseError" if cur in "ab" else "InvalidSession", f"step {k} of {ops}: outcome of a command on the client {cur}")
            new = {n: s.sent[before[n]:] for n, s in of.items()}
            same(new, {n: [frame] if n == cur and n in "ab" else [] for n in of}, f"step {k} of {ops}: frames sent on the connections")
        rep.count(states=len(ops), transitions=len(ops), traces=1)
        rep.cover("rebound")

    finish(rep, env, main, [kind, ops])


def moved(rep, kind, used, busy, other, chooser=None):
    """An item used on one client is given another: there, it takes its turn with the other items, and on it only."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    sides = Sides(env, [("9",), ("9",)])
    make, calls = ITEMS[kind]

    async def main():
        a = make_client(env)
        await a.start()
        b = make_client(env)
        await b.start()
        sa, sb = sides.list
        for s in sides.list:
            s.answers = {f: [NACK] for _, f in calls}
        sa.answers["*2*1*34##"] = []
        sb.answers.update({"*1*1*34##": [ACK], "*#1*35##": ["*1*1*35##", "*1*0*36##", ACK]})
        item = make(a)
        for i in used:
            try:
                await must(calls[int(i)][0](item), "command")
            except ResponseError:
                pass
        item.client = b
        sa.sent.clear()
        tasks = []
        hang = None
        if busy:
            # a command on the former client which is not answered
            hang = asyncio.ensure_future(Automation(a, "34").up())
            await settle()
        call, frame = calls[1]
        t0 = env.now
        ended = []

        async def mine():
            try:
                await call(item)
                got = "done"
            except ResponseError:
                got = "refused"
            ended.append(env.now - t0)
            return got

        async def theirs():
            if other == "on":
                await Light(b, "34").turn_on()
                got = "done"
            else:
                got = [(w.string, s) async for w, s in Light(b, "35").get_status()]
            ended.append(env.now - t0)
            return got

        env.exploring = True
        env.actions.append(Event("mine", lambda: tasks.append(asyncio.ensure_future(mine()))))
        env.actions.append(Event("theirs", lambda: tasks.append(asyncio.ensure_future(theirs()))))
        while len(tasks) < 2:
            await asyncio.sleep(0.01)
        await must(asyncio.gather(*tasks), "the commands")
        env.exploring = False
        got = sorted((t.result() for t in tasks), key=str)
        want = sorted(["refused", "done" if other == "on" else [("35", True), ("36", False)]], key=str)
        same(got, want, f"outcomes, {kind} used {used!r} on the other client before")
        same(sorted(sb.sent), sorted([frame, "*1*1*34##" if other == "on" else "*#1*35##"]), "frames sent on the new client")
        same(sa.sent, ["*2*1*34##"] if busy else [], "frames sent on the former client")
        if max(ended) > 1:
            raise Violation(f"the commands on a client took {max(ended)} s, the former client of the item being busy")
        if hang is not None:
            await asyncio.wait([hang], timeout=60)
            if not isinstance(hang.exception(), TimeoutError):
                raise Violation(f"the command without answer ended with {hang!r}")
        rep.cover("moved")

    finish(rep, env, main, [kind, used, busy, other])


FAULTS = ["none", "drop", "error", "garbage", "pause", "close", "half", "silent", "nonascii"]


def apart(rep, kinds, session, fault, last="b", chooser=None):
    """A command client at work while the other client (of any session) lives or suffers a fault."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    sides = Sides(env, [("9",), (session,)] if last == "b" else [(session,), ("9",)])
    calls = []

    async def handler(name, item, args):
        calls.append((name, item, args))
        if fault == "callback":
            raise RuntimeError("callback")

    async def main():
        if last == "b":
            a = make_client(env, SessionType.CommandSession)
            await a.start()
            b = make_client(env, SessionType(session))
            await b.start()
            sa, sb = sides.list
        else:
            b = make_client(env, SessionType(session))
            await b.start()
            a = make_client(env, SessionType.CommandSession)
            await a.start()
            sb, sa = sides.list
        cbs.use(handler)
        work, wants = [], []
        for i, n in enumerate(kinds):
            coro, frame, ans, want = op(n, a, i)
            if isinstance(ans, dict):
                sa.answers.update(ans)
            else:
                sa.answers[frame] = ans
            work.append(coro)
            wants.append(want)
        got = []

        async def worker():
            for coro in work:
                got.append(await coro)

        other = None
        if session == "1":
            other = asyncio.ensure_future(b.loop())
            await settle(3)
            env.send("*2*1*77##", tr=sb.tr)
        else:
            coro, frame, ans, owant = op("status", b, 5)
            sb.answers[frame] = [] if fault == "silent" else ans

            async def quietly():
                try:
                    return await coro
                except (TimeoutError, InvalidSession) as e:
                    return e

            other = asyncio.ensure_future(quietly())

        def harm():
            if fault == "drop":
                env.drop(tr=sb.tr)
            elif fault == "error":
                env.drop(ConnectionResetError("peer"), tr=sb.tr)
            elif fault == "garbage":
                env.send("hello##", tr=sb.tr)
            elif fault == "nonascii":
                env.send(b"\xff\xfe", tr=sb.tr)
            elif fault == "half":
                env.send("*1*1*", tr=sb.tr)
            elif fault == "pause":
                sb.tr.protocol.pause_writing()
            elif fault == "close":
                asyncio.ensure_future(b.close())

        if fault not in ("none", "silent", "callback"):
            env.actions.append(Event("fault", harm))
        env.exploring = True
        t0 = env.now
        w = asyncio.ensure_future(worker())
        await asyncio.wait([w], timeout=3)
        if not w.done():
            raise Violation(f"the commands {kinds} are stuck at {len(got)} after 3 s")
        while env.actions or [s for s in (sb.tr,) if s.segments and not s.lost]:
            await asyncio.sleep(0.001)
        env.exploring = False
        if w.exception() is not None:
            raise Violation(f"the commands {kinds} ended with {w.exception()!r}")
        same(got, wants, "results of the commands")
        await settle(10)
        if sa.tr.lost:
            raise Violation("the connection was closed with the other one")
        if session == "1":
            if fault in ("none", "pause", "half", "callback"):
                if other.done():
                    raise Violation(f"the loop of the other client ended: {other!r}")
                judge(["*2*1*77##"], calls, b, b)
        elif fault in ("none",):
            same(await must(other, "status"), owant, "status of the other client")
        elif fault == "pause":
            sb.tr.protocol.resume_writing()
            same(await must(other, "status"), owant, "status of the other client after resuming")
        # each still has only its own
        coro, frame, ans, want = op("nack", a, 5)
        sa.answers[frame] = ans
        same(await must(coro, "nack"), want, "command after the fault of the other client")
        if not sb.tr.lost and fault in ("none", "pause"):
            env.send("*#5##", tr=sb.tr) if session != "1" else None
            if session != "1":
                try:
                    m = await must(a.read_message(timeout=1), "read")
                    raise Violation(f"{m} of the other connection was read")
                except TimeoutError:
                    pass
                same(str(await must(b.read_message(timeout=1), "read")), "*#5##", "message of the other client")
        rep.cover("fault_" + fault)

    finish(rep, env, main, [kinds, session, fault])


def together(rep, plans, outcomes, chooser=None):
    """Several clients start at the same time, each with its session, password and challenge."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    sides = Sides(env, [tuple(p) for p in plans])
    orig = sides.on_connected

    def on_connected(tr):
        i = len(sides.list)
        orig(tr)
        sides.list[i].refuse = outcomes[i] == "refuse"

    env.on_connected = on_connected

    async def main():
        cs = [make_client(env, SessionType(p[0]), p[2] if len(p) > 2 else "12345") for p in plans]

        async def start(c):
            try:
                await c.start()
                return "ok"
            except InvalidAuthentication:
                return "refuse"

        env.exploring = True
        ts = [asyncio.ensure_future(start(c)) for c in cs]
        await must(asyncio.wait(ts), "start")
        env.exploring = False
        for t in ts:
            if t.exception():
                raise t.exception()
        same([t.result() for t in ts], list(outcomes), "outcomes of the handshakes")
        await settle()
        for i, c in enumerate(cs):
            s = sides.list[i]
            if outcomes[i] == "ok":
                if s.tr.lost:
                    raise Violation(f"client {i}: connection closed")
                f = f"*2*1*{i}7##"
                env.send(f, tr=s.tr)
                same(str(await must(c.read_message(), "read")), f, f"message read by client {i}")
                if plans[i][0] != "1":
                    coro, frame, ans, want = op("status", c, i)
                    s.answers[frame] = ans
                    same(await must(coro, "status"), want, f"status of client {i}")
        rep.cover("handshakes", len(plans))

    finish(rep, env, main, [plans, outcomes])


def run(rep, tier):
    thorough = tier == "thorough"
    hist = [
        ["*1*1*12##", "*2*1*77##"],
        ["*1*1*12##", "*1*5*0115#4#01##"],
        ["*1*1*12##", "*1*0*12##"],
        ["*1*1*12##", "*2*1*77##", "*1*5*0115#4#01##"],
        ["*#18*51*113*1234##", "*1*5*0115#4#01##", "*2*0*12##"],
    ]
    whos = ["light_status.light", "light_status.dimmer"]
    cases = []
    for h in hist:
        for r in ("on", "off_refused", "status", "silent"):
            for who in whos:
                for cut in ("frames", "joined", "halves"):
                    if r == "silent" and cut != "frames":
                        continue
                    for blocking in (False, True):
                        if blocking and cut != "frames":
                            continue
                        cases.append((h, r, who, cut, blocking))
    explore_all(rep, reacting, cases, bound=2 if thorough else 1)
    long = hist + [["*1*1*12##", "*1*0*12##", "*2*1*77##", "*1*5*0115#4#01##", "*#18*51*113*1234##", "*2*0*12##"]]
    explore_all(rep, undelivered, [(h, r, w) for h in long for r in ("on", "status") for w in whos], bound=2)
    explore_all(rep, illegal, [(h, r, w, cut) for h in long for r in ("on", "status") for w in whos for cut in ("frames", "joined")], bound=2)
    cases = []
    for kinds in (["on"], ["status"], ["nack", "dim"], ["zoom", "power"], ["gw", "hsv"]):
        for session in ("9", "0", "1"):
            for fault in FAULTS:
                if fault == "silent" and session == "1":
                    continue
                cases.append((kinds, session, fault))
                if len(kinds) == 1:
                    cases.append((kinds, session, fault, "a"))
        cases += [(kinds, "1", "callback", last) for last in "ab"]
    rep.parallel_each(
        rebound,
        lambda: (
            (k, "".join(o))
            for k in ITEMS
            for d in range(1, 6 if thorough else 5)
            for o in itertools.product("abnv01", repeat=d)
            if o[-1] in "01" and not any(x in "abnv" and y in "abnv" for x, y in zip(o, o[1:]))
        ),
    )
    explore_all(
        rep,
        moved,
        [(k, u, busy, o) for k in ITEMS for u in ("", "0", "1", "01") for busy in (False, True) for o in ("on", "status")],
        bound=3 if thorough else 2,
    )
    rep.parallel_each(
        late,
        lambda: (
            ("".join(o), r, u)
            for d in range(1, 7 if thorough else 6)
            for o in itertools.product("ESX", repeat=d)
            if "E" in o
            for r in ("on", "off_refused", "status")
            for u in (False, True)
        ),
    )
    explore_all(rep, apart, cases, bound=2 if thorough else 1)
    two = [
        [["9"], ["1"]],
        [["9", "603356072", "12345"], ["1", "987654321", "12345"]],
        [["9", "603356072", "12345"], ["0", "603356072", "54321"]],
        [["1", "11", "777"], ["9"]],
    ]
    cases = [(p, list(o)) for p in two for o in (["ok", "ok"], ["ok", "refuse"], ["refuse", "ok"], ["refuse", "refuse"])]
    explore_all(rep, together, cases, bound=3 if thorough else 2)
    three = [[["9", "603356072", "12345"], ["1", "987654321", "999"], ["0"]]]
    explore_all(rep, together, [(p, o) for p in three for o in (["ok", "ok", "ok"], ["ok", "refuse", "ok"])], bound=1)
