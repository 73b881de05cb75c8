"""C15: the event loop ends when the connection ends, after serving what it received."""
import asyncio

from . import cbs
from .c14 import EVENTS, judge
from .core import Violation
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .vloop import Env, Event
from pyown.exceptions import ParseError

ASSUMPTIONS = [
    "when the connection ends with an error the loop may return or raise that same error",
    "events received but not dispatched when the client itself closes may be dropped (never duplicated or reordered)",
]


def ending(rep, frames, cuts, end, blocking, chooser=None):
    """frames arrive in segments; the end of the connection happens at any moment (or in its place)."""
    env = Env(chooser, horizon=1e6)
    env.preempt = True
    calls = []
    st = {"ended": None, "close_calls": 0}
    err = ConnectionResetError("peer")
    box = {}

    async def handler(name, item, args):
        calls.append((name, item, args))
        if end == "callback" and len(calls) >= box["at"]:
            st["ended"] = "callback"
            await box["client"].close()
        if blocking:
            await asyncio.get_running_loop().create_future()

    async def main():
        c, _ = await started(env, SessionType.EventSession)
        box["client"] = c
        events = [f for f in frames if EVENTS[f][0]]
        if end == "callback":
            box["at"] = 1 + chooser.flip(max(1, sum(len(cbs.of_kind(EVENTS[f][0])) for f in events)))
        text = "".join(frames)
        if cuts == "frames":
            segs = list(frames)
        elif cuts == "joined":
            segs = [text]
        else:
            segs = []
            for f in frames:
                segs += [f[: len(f) // 2], f[len(f) // 2 :]]
        env.exploring = True
        t = None

        def go():
            nonlocal t
            t = asyncio.ensure_future(c.loop())

            def over(_):
                if not env.transport.lost and not st["ended"]:
                    raise_in.append(Violation(f"the loop ended ({t!r}) while the connection is alive"))

            t.add_done_callback(over)

        raise_in = []
        # (closing before the loop runs is the subject of C10)
        if end in ("close", "close_twice", "callback"):
            go()
        else:
            env.actions.append(Event("loop", go))
        if end == "drop":
            env.send(*segs)
            env.drop()
        elif end == "error":
            env.send(*segs)
            env.drop(err)
        elif end == "partial":
            env.send(*segs, "*1*1*")
            env.drop()
        elif end == "garbage":
            env.send(*segs, "*1*x##")
        elif end == "nonascii":
            env.send(*segs, b"*1*\xff")
        elif end == "callback":
            env.send(*segs)
        else:
            env.send(*segs)

            def close():
                st["ended"] = "close"
                asyncio.ensure_future(c.close())
                if end == "close_twice":
                    asyncio.ensure_future(c.close())

            env.actions.append(Event("close", close))
        steps = 0
        while (env.actions or (env.segments and not env.transport.lost)) and steps < 1000:
            steps += 1
            await asyncio.sleep(0.001)
        env.exploring = False
        if end == "callback" and not st["ended"]:
            await settle(40)
            if not st["ended"]:
                raise Violation(f"the callbacks were not called: {[x[0] for x in calls]}")
        await asyncio.wait([t], timeout=5)
        if not t.done():
            raise Violation(f"the loop still waits 5 s after the end of the connection ({end})")
        if raise_in:
            raise raise_in[0]
        exc = t.exception()
        if exc is not None:
            ok = (
                (end == "error" and isinstance(exc, OSError))
                or (end in ("garbage", "nonascii") and isinstance(exc, (ParseError, UnicodeDecodeError)))
            )
            if not ok:
                raise Violation(f"the loop failed with {type(exc).__name__}: {exc} at the end of the connection ({end})")
        await settle(30)
        if end in ("close", "close_twice", "callback"):
            # a prefix of the events, all their callbacks
            for n in range(len(frames) + 1):
                want = sum(len(cbs.of_kind(EVENTS[f][0])) for f in frames[:n] if EVENTS[f][0])
                if want == len(calls):
                    judge(frames[:n], calls, c, c)
                    break
            else:
                raise Violation(f"calls {[x[0] for x in calls]} are not those of a prefix of {frames}")
            if not env.transport.lost:
                raise Violation("the connection is still open after close()")
        else:
            judge(frames, calls, c, c)
        rep.cover("ended_by_" + end)

    cbs.use(handler)
    try:
        k, v = env.run(main())
    finally:
        cbs.use(None)
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"stuck ({v}), end {end}")
    rep.sample({"frames": frames, "end": end, "log": [x[0] for x in calls]})


def idle(rep, frames, length, end):
    """Nothing arrives for a long (virtual) time, before, between and after the events: the loop stays."""
    env = Env(horizon=1e8, max_iterations=10**7)
    calls = []

    async def handler(name, item, args):
        calls.append((name, item, args))

    async def main():
        c, _ = await started(env, SessionType.EventSession)
        t = asyncio.ensure_future(c.loop())
        for i in range(len(frames) + 1):
            await asyncio.sleep(length)
            if t.done():
                raise Violation(f"the loop ended ({t!r}) after {length} s without events, the connection is alive")
            judge(frames[:i], calls, c, c)
            if i < len(frames):
                env.send(frames[i])
                await drain(env)
                await settle(30)
        if end == "close":
            await c.close()
        else:
            env.drop(None if end == "drop" else ConnectionResetError("peer"))
        await asyncio.wait([t], timeout=5)
        if not t.done():
            raise Violation(f"the loop still waits 5 s after the end of the connection ({end})")
        if t.exception() is not None and not (end == "error" and isinstance(t.exception(), OSError)):
            raise Violation(f"the loop failed with {t.exception()!r} at the end of the connection ({end})")
        judge(frames, calls, c, c)

    cbs.use(handler)
    try:
        k, v = env.run(main())
    finally:
        cbs.use(None)
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"stuck ({v}), end {end}")
    rep.count(states=len(frames) + 1, transitions=len(frames) + 2, traces=1)
    rep.cover("idle_periods")


HIST = [
    [],
    ["*1*1*12##"],
    ["*2*1*77##", "*#18*51*113*1234##"],
    ["*1*1*12##", "*#*1##", "*2*2*12##"],
    ["*2*7*12##", "*#13**0*21*10*05*001##"],
    ["*1*1*12##", "*1*0*12##", "*1*1*12##", "*1*0*12##"],
    ["*#18*99*113*1##", "*4*1*2##"],
]


def real_socket(rep, frames, end):
    """Conformance: the same over a real loopback connection."""
    calls = []

    async def handler(name, item, args):
        calls.append((name, item, args))

    async def main():
        async def serve(r, w):
            w.write(b"*#*1##")
            await r.readuntil(b"##")
            w.write(b"*#*1##")
            await w.drain()
            await asyncio.sleep(0.02)
            if frames:
                w.write("".join(frames).encode())
                await w.drain()
            if end == "drop":
                await asyncio.sleep(0.02)
                w.close()
            elif end == "reset":
                await asyncio.sleep(0.05)
                w.transport.abort()
            else:
                await r.read()
                w.close()

        srv = await asyncio.start_server(serve, "127.0.0.1", 0)
        c = Client("127.0.0.1", srv.sockets[0].getsockname()[1], "12345", SessionType.EventSession)
        await c.start()
        t = asyncio.ensure_future(c.loop())
        if end == "close":
            for _ in range(2000):
                await asyncio.sleep(0.01)
                if len(calls) >= sum(len(cbs.of_kind(EVENTS[f][0])) for f in frames if EVENTS[f][0]):
                    break
            await c.close()
        await asyncio.wait([t], timeout=20)
        if not t.done():
            raise Violation(f"the loop still waits 20 s after the end of the connection ({end})")
        exc = t.exception()
        if exc is not None and not (end == "reset" and isinstance(exc, OSError)):
            raise Violation(f"the loop failed with {type(exc).__name__}: {exc} ({end})")
        await settle(30)
        judge(frames, calls, c, c)
        srv.close()

    cbs.use(handler)
    try:
        asyncio.run(main())
    finally:
        cbs.use(None)
    rep.count(states=1, transitions=len(frames), traces=1)
    rep.cover("real_connections")


def run(rep, tier):
    thorough = tier == "thorough"
    cases = []
    for frames in HIST:
        for cuts in ("frames", "joined", "halves"):
            for end in ("drop", "error", "partial", "garbage", "nonascii", "close", "close_twice", "callback"):
                if end == "callback" and not any(EVENTS[f][0] for f in frames):
                    continue
                for blocking in (False, True):
                    if blocking and (cuts == "joined" or end == "callback"):
                        continue
                    cases.append((frames, cuts, end, blocking))
    explore_all(rep, ending, cases, bound=3 if thorough else 2)
    lengths = [1, 4.9, 5.1, 9.9, 10.1, 29, 31, 61, 301, 601, 3601, 1e5]
    rep.parallel_each(
        idle, lambda: ((h, n, e) for h in HIST for n in lengths for e in ("drop", "error", "close")), limit=120
    )
    rep.each(real_socket, [(h, e) for h in HIST[:4] for e in ("drop", "close")], limit=60)
    rep.each(real_socket, [(HIST[0], "reset")], limit=60)
