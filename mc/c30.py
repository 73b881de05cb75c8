"""C30: the end of the connection ends what was in progress.

`ended`: 1 to 4 commands and reads are in progress when the client is closed, the gateway drops the connection
(orderly, with an error, with answers lost) or sends malformed bytes, at any moment; all the interleavings
within the preemption bound.  The commands whose answers had not all arrived fail, in bounded time; nothing is
sent after the end, and a new start() works.
"""
import asyncio

from .c11 import segments
from .c12 import op
from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK
from .vloop import Env, Event
from pyown.exceptions import InvalidSession, ResponseError

ASSUMPTIONS = [
    "which of TimeoutError and InvalidSession a command in progress gets is not claimed",
    "a read without timeout is not required to end when the connection ends",
    "a command that had received all its answers when the client itself was closed may fail or succeed",
]

KINDS = ["on", "nack", "zoom", "hsv", "status", "statusslow", "auto", "dim", "power", "gw", "stopgo", "netinfo"]
ENDS = ["close", "drop", "cut", "error", "garbage"]


def ended(rep, names, how, cut, state, session="9", chooser=None):
    """state: idle, paused (the writing is), mute (nothing is answered), slow (one answer every 2 s)."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    answers, sent, arrived, over = {}, [], [], []

    def on_frame(f):
        if f.startswith("*99*"):
            env.send(ACK)
            return
        if over:
            raise Violation(f"{f!r} sent after the end of the connection")
        sent.append(f)
        if f not in answers:
            raise Violation(f"unexpected frame {f!r}, sent {sent}")
        if sent.count(f) > 1:
            raise Violation(f"{f!r} sent twice")
        if state == "mute":
            return
        segs = segments(answers[f], cut)
        if state == "slow":
            for i, s in enumerate(segs):
                env.at(env.now + 2 * (i + 1), "answer", lambda s=s: over or env.send(s))
        else:
            env.send(*segs)

    env.on_frame = on_frame

    async def main():
        c = make_client(env, SessionType(session))
        await c.start()
        tr = env.transport
        feed = tr.feed

        def record(data):
            if not tr.lost and not tr.closing:
                arrived.append(data)
            feed(data)

        tr.feed = record
        if state == "paused":
            tr.protocol.pause_writing()
        tasks, wants, frames, ends = [], [], [], {}

        async def run(i, coro):
            try:
                return await coro
            finally:
                ends[i] = env.now

        count = 0
        for i, n in enumerate(names):
            if n.startswith("read"):
                coro, fs, want = c.read_message(timeout=int(n[4:])), [], None
                count += 1
            else:
                coro, frame, ans, want = op(n, c, i)
                if isinstance(ans, dict):
                    answers.update(ans)
                    fs = list(ans)
                else:
                    answers[frame] = ans
                    fs = [frame]
                count += len(fs)
            frames.append(fs)
            wants.append(want)
            tasks.append(asyncio.ensure_future(run(i, coro)))
        at, closers = [], []

        async def closing():
            over.append(1)
            began = env.now
            await c.close()
            if env.now - began > 0.5 or not (tr.closing or tr.lost):
                raise Violation(f"close() took {env.now - began} s, the connection being {'closed' if tr.closing or tr.lost else 'open'}")

        def end():
            at.append(env.now)
            if how == "close":
                closers.append(asyncio.ensure_future(closing()))
            elif how == "drop":
                env.drop()
            elif how == "cut":
                del env.segments[:]
                env.drop()
            elif how == "error":
                del env.segments[:]
                env.drop(ConnectionResetError("peer"))
            elif how == "garbage":
                del env.segments[:]
                env.send("x##")

        if state == "slow":
            env.at(env.now + 3, "end", end)
        else:
            env.actions.append(Event("end", end))
        env.exploring = True
        reads = max([int(n[4:]) for n in names if n.startswith("read")], default=0)
        while not at:
            await asyncio.sleep(0.01)
        env.exploring = state != "slow"
        t0 = env.now
        limit = 6.0 * count + reads + 2
        await asyncio.wait(tasks, timeout=limit)
        env.exploring = False
        for t in closers:
            await must(t, "close()")
        text = b"".join(arrived).decode("latin-1")
        for i, t in enumerate(tasks):
            if not t.done():
                raise Violation(f"{names[i]} (number {i} of {names}) still runs {limit} s after {how}; sent {sent}")
            if names[i].startswith("read"):
                if t.exception() is None:
                    if str(t.result()) not in text:
                        raise Violation(f"{t.result()} was read and never received")
                elif not isinstance(t.exception(), (TimeoutError, InvalidSession)):
                    raise Violation(f"read_message() ended with {t.exception()!r} after {how}")
                continue
            if any(n.startswith("read") for n in names):
                # which answers the reads took is not followed
                if t.exception() is not None and not isinstance(t.exception(), (TimeoutError, InvalidSession, ResponseError)):
                    raise Violation(f"{names[i]} ended with {t.exception()!r} after {how}")
                continue
            # what has to have arrived for this command to be complete
            mine = [f for f in sent if f in frames[i]]
            need = None
            if len(mine) == len(frames[i]):
                need = sum(len("".join(answers[f])) for f in sent[: sent.index(mine[-1]) + 1])
            complete = state != "mute" and need is not None and len(text.split("x##")[0]) >= need
            if t.cancelled():
                raise Violation(f"{names[i]} was cancelled by {how}")
            e = t.exception()
            if e is None:
                if not complete:
                    raise Violation(f"{names[i]} ended with {t.result()!r} although only {text!r} had arrived; sent {sent}")
                same(t.result(), wants[i], f"result of {names[i]}")
                rep.cover("complete")
            else:
                if not isinstance(e, (TimeoutError, InvalidSession)):
                    raise Violation(f"{names[i]} ended with {e!r} after {how}")
                if complete and how != "close":
                    raise Violation(f"{names[i]} ended with {e!r} although {text!r} had arrived; sent {sent}")
                rep.cover("failed_" + type(e).__name__)
        # a command issued now fails as well, and a new session works
        over.append(1)
        await c.close()
        env.transport = None
        try:
            await must(op("on", c, 8)[0], "a command after the end")
            raise Violation("a command after the end of the connection was accepted")
        except InvalidSession:
            pass
        over.clear()
        del env.segments[:]
        del env.timed[:]
        sent.clear()
        env.greeting = [ACK]
        await must(c.start(), "start() after the end")
        for n in ("nack", "status"):
            coro, frame, ans, want = op(n, c, 9)
            answers[frame] = ans
            env.on_frame = lambda f: env.send(*answers[f])
            same(await must(coro, n), want, f"result of {n} after {how} and a new start()")
        rep.cover("end_" + how)

    k, v = env.run(main())
    if k == "raised":
        raise Violation(f"{v if isinstance(v, Violation) else repr(v)}; frames {sent}; {[names, how, cut, state]}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); frames {sent}; {[names, how, cut, state]}")
    rep.sample([names, how, cut, state, list(sent)])


def run(rep, tier):
    thorough = tier == "thorough"
    cases = []
    for a in KINDS:
        for how in ENDS:
            for cut in ("frames", "joined", "shifted"):
                cases.append(([a], how, cut, "idle"))
            for state in ("paused", "mute", "slow"):
                cases.append(([a], how, "frames", state))
            cases.append(([a], how, "frames", "idle", "0"))
    for a in KINDS:
        for b in KINDS:
            if "netinfo" in (a, b) and a == b:
                continue
            for how in ENDS:
                cases.append(([a, b], how, "joined", "idle"))
                if thorough or (KINDS.index(a) + KINDS.index(b)) % 3 == 0:
                    cases.append(([a, b], how, "frames", "idle"))
                    cases.append(([a, b], how, "frames", "mute"))
                    cases.append(([a, b], how, "frames", "paused"))
    for a in ("on", "status", "power"):
        for r in ("read0", "read1", "read5"):
            for how in ENDS:
                for state in ("idle", "mute", "paused"):
                    cases.append(([r, a], how, "frames", state))
                    cases.append(([a, r], how, "frames", state))
    explore_all(rep, ended, cases, bound=3 if thorough else 2)
    more = [["on", "status", "nack"], ["status", "dim", "power"], ["zoom", "gw", "auto"], ["nack", "netinfo", "on"], ["on", "status", "nack", "power"]]
    cases = [(n, how, "joined", s) for n in more for how in ENDS for s in ("idle", "mute", "paused", "slow")]
    explore_all(rep, ended, cases, bound=2 if thorough else 1)
    explore_all(rep, ended, [([a], how, "frames", "idle") for a in KINDS for how in ENDS], bound=4 if thorough else 3)
