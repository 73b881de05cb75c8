"""C26: a client can be started again, and nothing of the former connection reaches the new session.

Every sequence of sessions up to a length: each one is left in one of many conditions (unread messages, half
a frame, paused writing, a command or a read or the event loop in progress...) and ends in one of many ways
(closed, dropped, reset, refused, silent, unreachable, cancelled...); every new session is probed in full.
`racing` explores the interleavings of an end and an immediate restart.
"""
import asyncio
import itertools

from . import cbs
from .c09 import Dialogue, end_of
from .core import CheckError, Violation, same
from .events import EVENTS
from .explore import explore_all
from .openalg import answer
from .util import *  # noqa: F401,F403
from .util import ACK, NACK
from .vloop import Env, Event
from pyown.exceptions import InvalidAuthentication, InvalidSession
from pyown.items.lighting import Light
from pyown.tags import Where, Who

ASSUMPTIONS = [
    "starting a client whose connection is alive is not claimed, except while its start() is in progress",
    "how an operation of the former session that was in progress at its end terminates is not claimed, "
    "except that it never gets anything of the new session",
    "a command waiting its turn behind one whose session ended may wait until that one gives up, and then be sent in the new session",
]

FAILED = ["refused", "unreachable", "silent", "cut", "wrong", "cancel0", "cancel1", "cancel2"]
CMD_RESIDUES = ["fresh", "unread", "half", "paused", "paused_send", "paused_command", "paused_status", "queued", "waiting", "waiting_status", "reading", "reading_timeout"]
EVENT_RESIDUES = ["fresh", "unread", "half", "paused", "looping", "looping_half", "looping_events", "reading"]
ENDS = ["close", "close_now", "drop", "drop_close", "error", "garbage", "undelivered", "close_twice"]
NONCES = ["603356072", "1", "987654321"]


class World:
    """The gateway of all the connections of one client."""

    def __init__(self, env, session, auth, password="12345"):
        self.env, self.session, self.auth, self.password = env, session, auth, password
        self.plan = "accept"
        self.n = 0
        self.mute = False
        self.frames = {}  # transport -> frames received after the handshake
        self.step = {}
        env.on_frame_of = self.on_frame
        env.on_connected = self.on_connected

    def on_connected(self, tr):
        self.n += 1
        self.step[tr] = 0
        self.frames[tr] = []
        tr.plan = self.plan
        tr.nonce = NONCES[self.n % len(NONCES)]

    def on_frame(self, tr, f):
        env = self.env
        s = self.step[tr]
        self.step[tr] = s + 1
        if s == 0:
            same(f, f"*99*{self.session}##", "first frame of a session")
            if tr.plan == "refused":
                env.send(NACK, tr=tr)
            elif tr.plan in ("silent", "cancel1"):
                pass
            elif tr.plan == "cut":
                env.drop(tr=tr)
            elif tr.plan == "wrong":
                env.send("*1*1*12##", tr=tr)
            elif self.auth == "open":
                env.send(f"*#{tr.nonce}##", tr=tr)
            else:
                self.step[tr] = 2
                env.send(ACK, tr=tr)
            return
        if s == 1:
            same(f, f"*#{answer(self.password, tr.nonce)}##", f"answer to the nonce {tr.nonce}")
            if tr.plan != "cancel2":
                env.send(ACK, tr=tr)
            return
        self.frames[tr].append(f)
        if self.mute:
            return
        if f.startswith("*#1*"):
            env.send(f"*1*1*{self.n}5##", ACK, tr=tr)
        else:
            env.send(ACK, tr=tr)


async def listed(gen):
    return [x async for x in gen]


async def wait_until(cond, what, limit=1000):
    for _ in range(limit):
        if cond():
            return
        await asyncio.sleep(0.01)
    raise CheckError(f"never reached: {what}")


class Story:
    def __init__(self, env, session, auth):
        self.env = env
        self.w = World(env, session, auth)
        self.session = session
        self.cmd = session != "1"
        self.calls = []
        self.pending = []  # operations of the former sessions
        self.n = 0
        self.client = make_client(env, SessionType(session))
        self.item = self.client.get_item(Who.LIGHTING, Where("12"), client=self.client)

    async def handler(self, name, item, args):
        self.calls.append((name, item, args))

    # -- starting -------------------------------------------------------------------------------------
    async def start(self, plan="accept"):
        """One attempt; an accepted one leaves the client started."""
        env, c, w = self.env, self.client, self.w
        w.plan = plan
        w.mute = False
        t0 = env.now
        n = len(env.transports)
        if plan == "unreachable":
            env.connect_error = ConnectionRefusedError("refused")
        if plan.startswith("cancel"):
            env.greeting = [] if plan == "cancel0" else [ACK]
            t = asyncio.ensure_future(c.start())
            await asyncio.sleep(1)
            if t.done():
                raise Violation(f"start() ended ({t!r}) although the gateway did not answer")
            t.cancel()
            await asyncio.wait([t], timeout=20)
            if not t.done():
                raise Violation("start() still runs after it was cancelled")
            if not t.cancelled():
                raise Violation(f"start() ended with {t!r} after it was cancelled")
            env.greeting = [ACK]
        else:
            try:
                await must(c.start(), f"start of session {self.n + 1}")
                got = "accept"
            except (InvalidAuthentication, TimeoutError) as e:
                got = type(e).__name__
            want = {"accept": ["accept"], "refused": ["InvalidAuthentication"], "wrong": ["InvalidAuthentication"]}
            if got not in want.get(plan, ["TimeoutError"]):
                raise Violation(f"start() number {self.n + 1} ended with {got}, the gateway was {plan}")
        env.connect_error = None
        self.n += 1
        if plan == "accept":
            if env.now - t0 > 1:
                raise Violation(f"start() number {self.n} took {env.now - t0} s")
            same(len(env.transports), n + 1, "connections opened by start()")
            if env.transport.lost:
                raise Violation("start() succeeded and its connection is closed")
        await settle()
        for tr in env.transports[: len(env.transports) - (plan == "accept")]:
            if not tr.lost:
                raise Violation(f"a former connection is still open after start() number {self.n} ({plan})")

    # -- probing --------------------------------------------------------------------------------------
    async def probe(self, full):
        env, c, w = self.env, self.client, self.w
        tr = env.transport
        k = self.n
        w.mute = False
        want = []
        f = f"*1*0*{k}4##"
        env.send(f[:3], f[3:])
        if self.cmd or not full:
            m = await must(c.read_message(), "read")
            same(str(m), f, "first message read in a new session")
        if self.cmd:
            t0 = env.now
            await must(self.item.turn_on(), "command")
            want.append("*1*1*12##")
            if full:
                got = [(x.string, s) async for x, s in Light(c, "13").get_status()]
                same(got, [(f"{w.n}5", True)], "status in a new session")
                want.append("*#1*13##")
            if env.now - t0 > 20:
                raise Violation(f"the commands of the new session took {env.now - t0} s")
        if full and not self.cmd:
            self.calls.clear()
            t = asyncio.ensure_future(c.loop())
            await asyncio.sleep(50)
            if t.done():
                raise Violation(f"the loop ended ({t!r}) while the connection is alive")
            env.send("*2*1*77##")
            await drain(env)
            await settle(30)
            got = sorted((x[0], str(x[1].where)) for x in self.calls)
            names = [("light_status", f"{k}4"), ("automation", "77")]
            same(got, sorted((n, w_) for kind, w_ in names for n in cbs.of_kind(kind)), "callbacks called in a new session")
            if t.done():
                raise Violation(f"the loop ended ({t!r}) while the connection is alive")
            await must(c.close(), "close")
            await asyncio.wait([t], timeout=5)
            if not t.done():
                raise Violation("the loop still waits 5 s after close()")
            if t.exception():
                raise t.exception()
        if full and c.get_item(Who.LIGHTING, Where("12"), client=c) is not self.item:
            raise Violation("the item obtained before is not the same after a restart")
        await settle()
        same([f for f in w.frames[tr] if f != "*1*1*67##"], want, f"frames of session {k}")
        for old in env.transports[:-1]:
            if old.lost < 1:
                raise Violation("a former connection is open again")

    # -- leaving something behind -----------------------------------------------------------------------
    async def residue(self, kind):
        env, c, w = self.env, self.client, self.w
        k = self.n
        w.mute = True
        task = None
        if kind in ("unread", "looping_events") and kind == "unread":
            env.send(f"*1*1*{k}8##", f"*#*0##*1*0*{k}9##")
            await drain(env)
        elif kind == "half":
            env.send("*#*1")
            await drain(env)
        elif kind.startswith("paused"):
            env.transport.protocol.pause_writing()
            if kind.startswith("paused_command"):
                task = asyncio.ensure_future(Light(c, "66").turn_on())
                await asyncio.sleep(0.25)
            if kind == "paused_status":
                task = asyncio.ensure_future(listed(Light(c, "66").get_status()))
                await asyncio.sleep(0.25)
            if kind == "paused_send":
                task = asyncio.ensure_future(c.send_message(parse_message("*1*1*66##"), force=True))
                await asyncio.sleep(0.25)
        elif kind == "queued":
            task = asyncio.ensure_future(Light(c, "66").turn_on())
            await asyncio.sleep(0.2)
            self.pending.append(("behind", asyncio.ensure_future(Light(c, "67").turn_on())))
            await asyncio.sleep(0.2)
        elif kind == "waiting":
            task = asyncio.ensure_future(Light(c, "66").turn_on())
            await asyncio.sleep(0.5)
        elif kind == "waiting_status":
            async def status():
                return [x async for x in Light(c, "66").get_status()]

            task = asyncio.ensure_future(status())
            await asyncio.sleep(0.5)
            env.send("*1*1*66##")
            await drain(env)
        elif kind == "reading":
            task = asyncio.ensure_future(c.read_message(timeout=None))
            await asyncio.sleep(0.5)
        elif kind == "reading_timeout":
            task = asyncio.ensure_future(c.read_message(timeout=30))
            await asyncio.sleep(0.5)
        elif kind.startswith("looping"):
            task = asyncio.ensure_future(c.loop())
            await asyncio.sleep(0.5)
            if kind == "looping_half":
                env.send("*2*1*7")
                await drain(env)
            if kind == "looping_events":
                env.send("*2*1*71##*2*0*72##")
                await drain(env)
        elif kind != "fresh":
            raise CheckError(kind)
        if task is not None:
            if task.done():
                raise CheckError(f"{kind}: {task!r}")
            self.pending.append((kind, task))

    async def end(self, how):
        env, c = self.env, self.client
        if how == "close":
            await must(c.close(), "close")
            await settle(20)
        elif how == "close_twice":
            await must(c.close(), "close")
            await settle(20)
            await must(c.close(), "close")
        elif how == "close_now":
            await must(c.close(), "close")
        elif how == "undelivered":
            env.send("*1*1*88##*1*", "*#*1##")
            await must(c.close(), "close")
        elif how in ("drop", "drop_close"):
            env.drop()
            await wait_until(lambda: env.transport.conn_lost_called, "drop")
            if how == "drop_close":
                await must(c.close(), "close")
        elif how == "error":
            env.drop(ConnectionResetError("peer"))
            await wait_until(lambda: env.transport.conn_lost_called, "error")
        elif how == "garbage":
            env.send("*1*1*1##hello##")
            await wait_until(lambda: env.transport.conn_lost_called, "garbage")
        else:
            raise CheckError(how)

    async def over(self):
        """The operations of the former sessions have got nothing of the new one."""
        for kind, t in self.pending:
            if kind.startswith("looping") and not t.done():
                await asyncio.wait([t], timeout=5)
                if not t.done():
                    raise Violation("the loop of a former session still runs")
            if kind.startswith(("reading", "waiting", "paused", "queued", "behind")) and not t.done():
                await asyncio.wait([t], timeout=60)
            if not t.done():
                if kind not in ("reading", "paused_send"):
                    raise Violation(f"an operation of a former session ({kind}) never ends")
                if kind == "paused_send":
                    raise Violation("a send of a former session never ends")
                t.cancel()
                continue
            if t.cancelled() or t.exception() is not None or kind.startswith("looping") or kind in ("paused_send", "behind"):
                continue
            if kind.startswith("reading"):
                if str(t.result()) in ("*1*1*1##", "*1*1*88##", "*2*1*71##"):
                    continue  # of its own session
                raise Violation(f"a read of a former session got {t.result()} of the new one")
            raise Violation(f"a command of a former session ({kind}) succeeded: {t.result()!r}")


def finish(rep, env, story, main, what):
    async def whole():
        story.append(Story(env, *what[:2]))
        cbs.use(story[0].handler)
        await main(story[0])

    try:
        k, v = env.run(whole())
    finally:
        cbs.use(None)
    if k == "raised":
        if isinstance(v, Violation):
            raise Violation(f"{v}; history {what}")
        if isinstance(v, CheckError):
            raise Violation(f"unexpected course: {v}; history {what}")
        raise Violation(f"{type(v).__name__}: {v}; history {what}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); history {what}")
    rep.sample(what)


def again(rep, session, auth, history):
    """history: steps, each a failed start or [residue, end]; then a session probed in full."""
    env = Env(horizon=1e5, max_iterations=10**6)

    async def main(s):
        for step in history:
            if isinstance(step, str):
                await s.start(step)
            else:
                await s.start()
                await s.probe(False)
                await s.residue(step[0])
                await s.end(step[1])
        await s.start()
        await s.probe(True)
        await s.over()

    finish(rep, env, [], main, (session, auth, history))
    rep.count(states=3 * len(history) + 2, transitions=3 * len(history) + 1, traces=1)
    rep.cover("restarts", len(history))


def racing(rep, session, residue, end, chooser=None):
    """The end of a session and an immediate restart by another task, in every order with what still arrives."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True

    async def main(s):
        await s.start()
        await s.residue(residue)
        c = s.client
        first = env.transport
        old = "*1*1*88##" if s.cmd else "*2*1*71##"
        env.send(old, old[:4])
        result = []

        async def restart():
            if end == "close":
                await c.close()
            s.w.plan, s.w.mute = "accept", False
            await c.start()

        def go():
            result.append(asyncio.ensure_future(restart()))

        env.exploring = True
        if end == "close":
            env.actions.append(Event("restart", go))
        else:
            env.drop(None if end == "drop" else ConnectionResetError("peer"))
        await wait_until(lambda: result or first.conn_lost_called, "end")
        if not result:
            go()
        await wait_until(lambda: result[0].done() or (not env.segments and not env.actions), "restart", 3000)
        env.exploring = False
        await must(asyncio.wait(result), "restart")
        if result[0].exception():
            raise Violation(f"start() again failed with {result[0].exception()!r}")
        s.n += 1
        if env.transport is first or env.transport.lost or not first.lost:
            raise Violation("the restarted client has no connection of its own")
        await s.probe(True)
        await s.over()

    finish(rep, env, [], main, (session, "none", residue, end))
    rep.cover("races")


STAGES = ["connecting", "cancel0", "silent", "cancel2", "accept"]


def abandoned(rep, session, auth, stage, what, late, delay, chooser=None):
    """A start() still in progress when the client is closed, and started again, by another task.

    The gateway has stopped at a stage of the handshake; after the new session began it is silent, goes on, or drops
    the former connection. The former start() fails, its connection is closed and the new session is not affected.
    delay None: the other task acts at any moment, in every order with the handshake.
    """
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = delay is None

    async def main(s):
        c, w = s.client, s.w
        w.plan = stage
        env.greeting = [] if stage == "cancel0" else [ACK]
        gate = None
        if stage == "connecting":
            w.plan = "accept"
            gate = env.connecting = env.loop.create_future()
        result, other = [], []

        async def act():
            # what the gateway does on the new connection
            w.plan, env.greeting, env.connecting = "accept", [ACK], None
            result.append(first.done())
            if what != "start":
                await c.close()
                result.append(first.done())
            if what != "close":
                if what == "close_wait_start":
                    await asyncio.sleep(2)
                await c.start()
            other.append(env.transport)

        env.exploring = delay is None
        first = asyncio.ensure_future(c.start())
        acts = []
        if delay is None:
            env.actions.append(Event(what, lambda: acts.append(asyncio.ensure_future(act()))))
        else:
            env.at(env.now + delay, what, lambda: acts.append(asyncio.ensure_future(act())))
        await wait_until(lambda: acts, "act")
        await asyncio.wait(acts, timeout=100)
        if not acts[0].done():
            raise Violation(f"{what} never ends, during a start() that is in progress")
        if acts[0].exception() is not None:
            raise Violation(f"{what} during a start() in progress raised {acts[0].exception()!r}")
        env.exploring = False
        if gate is not None:
            if late == "answers":
                gate.set_result(None)
            elif late == "drops":
                gate.set_exception(ConnectionRefusedError("refused"))
        elif late == "answers":
            for tr in env.transports:
                if tr is not other[0] and not tr.lost:
                    env.send(ACK, tr=tr)
        s.n += 1
        if what == "close":
            if not gate or late != "silent":
                await asyncio.wait([first], timeout=100)
                if not first.done():
                    raise Violation("start() never ends after the client was closed")
                if not result[0] and not result[1] and first.exception() is None:
                    raise Violation("a start() that was in progress when the client was closed succeeded")
            await settle()
            if any(not tr.lost for tr in env.transports):
                raise Violation("a connection is open after close() during start()")
            for op in (lambda: c.read_message(), lambda: c.send_message(s.item.create_normal_message("1"), force=True)):
                try:
                    await must(op(), "use of a closed client")
                except InvalidSession:
                    continue
                raise Violation("a client closed during start() could be used")
            await s.start()
            await s.probe(True)
        else:
            await settle(10)
            if other[0].lost:
                raise Violation(f"after {what}, the new session has no connection")
            env.transport = other[0]  # an abandoned one may have connected later
            env.transports.sort(key=lambda tr: tr is other[0])
            await s.probe(False)
            if s.cmd:
                await asyncio.sleep(40)
                w.frames[env.transport].clear()
                await s.probe(False)
            if late != "silent" or gate is None:
                await asyncio.wait([first], timeout=100)
                if not first.done():
                    raise Violation("a start() abandoned never ends")
                if not result[0] and first.exception() is None:
                    raise Violation("an abandoned start() succeeded")
            if other[0].lost:
                raise Violation(f"after {what}, the connection of the new session was lost")
            for tr in env.transports:
                if tr is not other[0] and not tr.lost:
                    raise Violation("the connection of the abandoned start() is still open")
            w.frames[env.transport].clear()
            await s.probe(True)
        first.cancel()
        await s.over()

    finish(rep, env, [], main, (session, auth, stage, what, late, delay))
    rep.cover("abandoned_starts")


FEW = {
    "ack", "nack", "nonce0", "alg1", "alg3", "key0", "proof", "bad_lastbit", "drop",
}  # fmt: skip
GOOD = {"ack", "nonce0", "nonce1", "alg1", "alg2", "key0", "proof"}


class Redial(Dialogue):
    allowed = None

    def step(self, options):
        return super().step([o for o in options if self.allowed is None or o in self.allowed])


def redial(rep, session, password, depth, chooser=None):
    """Handshakes one after the other on the same client: any dialogue (or some), then the good ones."""
    env = Env(chooser, horizon=1e5)
    steps = []

    async def main():
        c = make_client(env, SessionType(session), password)
        orig = env._connected
        for i in range(depth):
            d = Redial(env, chooser.flip, session, password, "whole", 0)
            d.allowed = GOOD if i == depth - 1 else FEW if depth > 2 else None
            n = len(env.frames)

            def connected(tr):
                orig(tr)
                d.connected()

            env._connected = connected
            t0 = env.now
            try:
                await c.start()
                exc = None
            except Exception as e:
                exc = e
            steps.append(d.steps)
            if env.now - t0 > 60:
                raise Violation(f"start() took {env.now - t0} s; gateway: {steps}")
            await asyncio.sleep(7)
            d.check_end(end_of(exc))
            d.check_sent(env.frames[n:])
            if exc is None and d.expect_end == "ok":
                env.on_frame = lambda f: None
                env.send("*1*0*99##")
                same(str(await must(c.read_message(), "read")), "*1*0*99##", "message after the handshake")
                if chooser.flip(2):
                    await c.close()
                else:
                    env.drop()
                await wait_until(lambda: env.transport.conn_lost_called, "end")
            for tr in env.transports:
                if not tr.lost:
                    raise Violation("a connection is still open after a failed start or close()")
        same([x[1:] for x in env.log if x[0] == "connect"], [("192.168.1.35", 20000)] * depth, "addresses connected to")

    k, v = env.run(main())
    if k == "raised":
        raise Violation(f"{v if isinstance(v, Violation) else repr(v)}; handshakes {steps}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); handshakes {steps}")
    rep.cover("handshakes", depth)
    rep.sample(steps)


def slow(rep, session, auth, residue, end, delays):
    """The gateway takes its time in the second handshake, while the operations of the first session give up."""
    env = Env(horizon=1e5, max_iterations=10**6)

    async def main(s):
        await s.start()
        await s.residue(residue)
        await s.end(end)
        send = env.send
        left = list(delays)

        def later(*segs, tr=None):
            if left:
                env.at(env.now + left.pop(0), "later", lambda: send(*segs, tr=tr))
            else:
                send(*segs, tr=tr)

        env.send = later
        s.w.plan, s.w.mute = "accept", False
        try:
            await must(s.client.start(), "start")
        except (InvalidAuthentication, TimeoutError) as e:
            raise Violation(f"start() again failed with {e!r} although the gateway accepts it")
        s.n += 1
        env.send = send
        await asyncio.sleep(20)  # what waited behind the former operations may be sent now
        s.w.frames[env.transport].clear()
        await s.probe(True)
        await s.over()

    finish(rep, env, [], main, (session, auth, residue, end, delays))
    rep.count(states=6, transitions=6, traces=1)
    rep.cover("slow_restarts")


def real_socket(rep, session, history):
    """Conformance: the same client restarted over real loopback connections."""
    calls = []

    async def handler(name, item, args):
        calls.append((name, str(item.where)))

    async def main():
        plan = []
        seen = []
        orders = asyncio.Queue()

        async def serve(r, w):
            mode = plan[-1]
            got = []
            seen.append(got)
            try:
                w.write(b"*#*1##")
                got.append((await r.readuntil(b"##")).decode())
                if mode == "refuse":
                    w.write(b"*#*0##")
                    await r.read()
                    return
                w.write(b"*#*1##")
                if session == "1":
                    w.write(f"*2*1*{len(seen)}1##".encode())
                else:
                    got.append((await r.readuntil(b"##")).decode())
                    w.write(b"*#*1##*1*1")  # and half a frame
                await w.drain()
                order = await orders.get()
                if order == "reset":
                    w.transport.abort()
            except (OSError, asyncio.IncompleteReadError):
                pass
            finally:
                w.close()

        srv = await asyncio.start_server(serve, "127.0.0.1", 0)
        c = Client("127.0.0.1", srv.sockets[0].getsockname()[1], "12345", SessionType(session))
        for i, mode in enumerate([*history, "close"]):
            plan.append(mode)
            if mode == "refuse":
                try:
                    await must(c.start(), "start", 20)
                except InvalidAuthentication:
                    continue
                raise Violation("start() succeeded although the gateway refused it")
            await must(c.start(), "start", 20)
            t = None
            if session == "1":
                t = asyncio.ensure_future(c.loop())
                want = [(n, f"{i + 1}1") for n in cbs.of_kind("automation")]
                for _ in range(2000):
                    await asyncio.sleep(0.005)
                    if len(calls) >= len(want) or t.done():
                        break
                same(sorted(calls), want, f"callbacks called in session {i + 1}")
                calls.clear()
            else:
                await must(Light(c, "12").turn_on(), "command", 20)
            if mode == "close":
                await c.close()
            orders.put_nowait(mode)
            if t is not None:
                await asyncio.wait([t], timeout=20)
                if not t.done():
                    raise Violation(f"the loop still waits 20 s after the end of the connection ({mode})")
                if t.exception() and not (mode == "reset" and isinstance(t.exception(), OSError)):
                    raise t.exception()
        frames = [f"*99*{session}##"] + (["*1*1*12##"] if session != "1" else [])
        same(seen, [frames[:1] if m == "refuse" else frames for m in plan], "frames seen by the gateway")
        srv.close()

    cbs.use(handler)
    try:
        asyncio.run(main())
    finally:
        cbs.use(None)
    rep.count(states=len(history), transitions=len(history), traces=1)
    rep.cover("real_connections", len(history) + 1)


def run(rep, tier):
    thorough = tier == "thorough"

    def steps(session):
        res = EVENT_RESIDUES if session == "1" else CMD_RESIDUES
        return [[r, e] for r in res for e in ENDS] + FAILED

    def gen():
        for session in ("9", "0", "1"):
            st = steps(session)
            for auth in ("none", "open"):
                ok = [s for s in st if s != "cancel2" or auth == "open"]
                yield session, auth, []
                for s in ok:
                    yield session, auth, [s]
                for p in itertools.product(ok, repeat=2):
                    yield session, auth, list(p)
                few = [["unread", "close_now"], ["half", "drop"], ["paused", "error"], "refused", "unreachable", ["fresh", "close"]]
                if session != "1":
                    few += [["waiting", "close"], ["reading", "close_now"]]
                else:
                    few += [["looping", "close_now"], ["looping_half", "drop"]]
                for n in (3, 4) if thorough else (3,):
                    for p in itertools.product(few, repeat=n):
                        yield session, auth, list(p)

    rep.parallel_each(again, gen, limit=60)
    times = [0.05, 0.3, 2.0, 4.5] if thorough else [0.05, 0.3, 4.5]
    rep.parallel_each(
        slow,
        lambda: (
            (s, auth, r, e, list(d))
            for s in ("9", "1")
            for auth in ("none", "open")
            for r in (EVENT_RESIDUES if s == "1" else CMD_RESIDUES)
            for e in ENDS
            for d in itertools.product(times, repeat=2 if auth == "none" else 3)
        ),
        limit=60,
    )
    cases = [(s, r, e) for s in ("9", "1") for r in (EVENT_RESIDUES if s == "1" else CMD_RESIDUES) for e in ("close", "drop", "error")]
    explore_all(rep, racing, cases, bound=4 if thorough else 3)
    cases = [(s, p, n) for s in ("9", "0", "1") for p in ("12345", "1") for n in (2, 3) if n == 2 or (s != "0" and p == "1")]
    explore_all(rep, redial, cases)
    cases = [
        (s, auth, stage, what, late, d)
        for s in ("9", "0", "1")
        for auth in ("none", "open")
        for stage in STAGES
        if stage != "cancel2" or auth == "open"
        for what in ("close", "start", "close_start", "close_wait_start")
        for late in ("silent", "answers", "drops")
        if late != "drops" or stage == "connecting"
        for d in (None, 0.5, 4.9)
        if stage != "accept" or d is None
    ]
    explore_all(rep, abandoned, cases, bound=4 if thorough else 3)
    ways = ["close", "drop", "reset", "refuse"]
    rep.each(real_socket, [(s, list(h)) for s in ("9", "1") for h in itertools.product(ways, repeat=2)], limit=60)
