"""C27: an interrupted command leaves the connection usable and in step.

`interrupted`: a command is cancelled at any moment, gives up, or gets something unexpected; once what the
gateway had to say about it has arrived, the following commands are judged exactly.  `queue`: concurrent
commands, some of which are cancelled at any moment; all the interleavings within the preemption bound.
"""
import asyncio

from .c11 import segments
from .c12 import op
from .core import CheckError, Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK, NACK
from .vloop import Env, Event
from pyown.exceptions import InvalidSession, ResponseError

ASSUMPTIONS = [
    "the frames carry no reference to the command they answer: while answers to an interrupted command are still "
    "to come, the results of the commands sent meanwhile are not judged, only that they are sent once and end",
]

KINDS = ["on", "nack", "zoom", "hsv", "status", "statusslow", "auto", "dim", "power", "gw", "stopgo", "netinfo"]
UNEXPECTED = ["*#1*33*#1*150*2##", "*#5##", "*99*1##", "*#1*33*1##"]


class Gateway:
    def __init__(self, env, cut="frames"):
        self.env, self.cut = env, cut
        self.answers = {}
        self.sent = []
        self.when = {}  # frame -> time of each of its answers, after the frame (none: never)
        env.on_frame = self.on_frame

    def add(self, frame, ans):
        if isinstance(ans, dict):
            self.answers.update(ans)
            return list(ans)
        self.answers[frame] = ans
        return [frame]

    def on_frame(self, f):
        if f.startswith("*99*"):
            self.env.send(ACK)
            return
        self.sent.append(f)
        if f not in self.answers:
            raise Violation(f"unexpected frame {f!r}, sent {self.sent}")
        if self.sent.count(f) > 1:
            raise Violation(f"{f!r} sent twice")
        times = self.when.get(f)
        if times is None:
            self.env.send(*segments(self.answers[f], self.cut))
        else:
            for a, t in zip(self.answers[f], times):
                self.env.at(self.env.now + t, "answer", lambda a=a: self.env.send(*segments([a], self.cut)))


async def quiet(env):
    while env.segments or env.timed:
        await asyncio.sleep(0.01)
    await settle()


def run_env(rep, env, main, gw, what):
    k, v = env.run(main())
    if k == "raised":
        raise Violation(f"{v if isinstance(v, Violation) else repr(v)}; frames {gw.sent}; {what}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); frames {gw.sent}; {what}")
    rep.sample([*what, list(gw.sent)])


def interrupted(rep, first, then, how, cut, session="9", chooser=None):
    """Each command of `first` is interrupted as told, then those of `then` are judged."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    gw = Gateway(env, cut)

    async def main():
        c = make_client(env, SessionType(session))
        await c.start()
        k = 0
        for name in first:
            coro, frame, ans, want = op(name, c, k)
            k += 1
            frames = gw.add(frame, ans)
            gw.sent.clear()
            f = frames[0]
            if how in ("cancel", "cancel_paused"):
                if how == "cancel_paused":
                    env.transport.protocol.pause_writing()
                t = asyncio.ensure_future(coro)
                st = []

                def cancel():
                    st.append((list(gw.sent), t.done()))
                    t.cancel()

                env.exploring = True
                env.actions.append(Event("cancel", cancel))
                await asyncio.wait([t], timeout=50)
                while env.actions:
                    await asyncio.sleep(0.01)
                env.exploring = False
                if not t.done():
                    raise Violation(f"{name} still runs after it was cancelled")
                if how == "cancel_paused":
                    env.transport.protocol.resume_writing()
                    await asyncio.sleep(1)
                await quiet(env)
                if not t.cancelled():
                    if t.exception() is not None:
                        raise Violation(f"{name} cancelled: {t.exception()!r}")
                    same(t.result(), want, f"result of {name}")
                elif how == "cancel_paused" and gw.sent:
                    raise Violation(f"{name} was cancelled while waiting for the writing and its frame was sent")
                for x in gw.sent:
                    if x not in frames:
                        raise Violation(f"unexpected frame {x}")
            elif how.startswith("wait_for"):
                # the caller gives up, the answers come later
                limit = float(how.split(":")[1])
                gw.when[f] = [1.0 + 0.3 * i for i in range(len(gw.answers[f]))]
                try:
                    await asyncio.wait_for(coro, limit)
                    raise Violation(f"{name} ended before its answers")
                except TimeoutError:
                    pass
                await quiet(env)
            elif how == "late":
                # no answer for a long time, then all of them
                gw.when[f] = [8.0 + 0.3 * i for i in range(len(gw.answers[f]))]
                try:
                    r = await must(coro, name)
                    raise Violation(f"{name} returned {r!r} without any answer")
                except TimeoutError:
                    pass
                await quiet(env)
            elif how == "late_rest":
                # the first answer at once, the others after a long time
                n = len(gw.answers[f])
                gw.when[f] = [0.1] + [9.0 + 0.3 * i for i in range(n - 1)]
                try:
                    r = await must(coro, name)
                    if n > 1:
                        raise Violation(f"{name} returned {r!r} without its last answer")
                    same(r, want, f"result of {name}")
                except TimeoutError:
                    if n == 1:
                        raise Violation(f"{name} raised TimeoutError although it was answered")
                await quiet(env)
            elif how.startswith("unexpected"):
                # something else among the answers, which then continue to their end
                _, i, u, *n = how.split(":")
                a = list(gw.answers[f])
                i = min(int(i), len(a) - 1)
                gw.answers[f] = [*a[:i], *[u] * int(*n or [1]), *a[i:]]
                try:
                    r = await must(coro, name)
                    if r != "refused":
                        raise Violation(f"{name} returned {r!r} although it was answered {gw.answers[f]}")
                except ResponseError:
                    pass
            elif how.startswith("unread"):
                # the user has not read something
                coro.close()
                what, *n = how[6:].split(":")
                some = {"ack": [ACK], "nack": [NACK], "event": ["*1*1*33##"], "dim": ["*#1*33*8*5##", ACK]}[what]
                env.send(*segments(some * int(*n or [1]), cut))
                await quiet(env)
            else:
                raise CheckError(how)
        gw.when.clear()
        for name in then:
            coro, frame, ans, want = op(name, c, k)
            k += 1
            frames = gw.add(frame, ans)
            gw.sent.clear()
            t0 = env.now
            try:
                got = await must(coro, name)
            except (ResponseError, TimeoutError) as e:
                raise Violation(f"{name} answered {[gw.answers[x] for x in frames]} ended with {e!r}")
            same(got, want, f"result of {name} after the interrupted one")
            same(sorted(gw.sent), sorted(frames), "frames sent")
            if env.now - t0 > 1:
                raise Violation(f"{name} took {env.now - t0} s")
        rep.cover("interrupted_" + how.split(":")[0].split("_")[0])

    run_env(rep, env, main, gw, [first, then, how, cut])


def halved(rep, a, b, tail):
    """The answers to an interrupted command are cut anywhere by the next command: its frames stay whole."""
    n = 0
    pos = 1
    while True:
        env = Env(horizon=1e5, max_iterations=10**6)
        gw = Gateway(env)
        total = 0

        async def main():
            nonlocal total
            c = make_client(env)
            await c.start()
            coro, frame, ans, want = op(a, c, 0)
            frames = gw.add(frame, ans)
            data = "".join(gw.answers[frames[0]])
            total = len(data)
            gw.when[frames[0]] = []
            try:
                await asyncio.wait_for(coro, 0.5)
                raise Violation(f"{a} ended before its answers")
            except TimeoutError:
                pass
            env.send(data[:pos])
            await quiet(env)
            coro, frame, ans, want = op(b, c, 1)
            frames = gw.add(frame, ans)
            gw.when[frames[0]] = [2.0 + 0.1 * i for i in range(len(gw.answers[frames[0]]))]
            env.at(env.now + 1, "rest", lambda: env.send(data[pos:]))
            try:
                await must(coro, b)
            except Violation:
                raise
            except Exception:
                # the late answers cannot be told from its own: only that it ends is judged
                pass
            await quiet(env)
            gw.when.clear()
            for k, name in enumerate(tail):
                coro, frame, ans, want = op(name, c, 2 + k)
                gw.add(frame, ans)
                try:
                    got = await must(coro, name)
                except (ResponseError, TimeoutError, InvalidSession) as e:
                    raise Violation(f"{name} answered {gw.answers[frame]} ended with {e!r}, {data!r} having been cut at {pos}")
                same(got, want, f"result of {name} after the interrupted one, {data!r} having been cut at {pos}")

        run_env(rep, env, main, gw, [a, b, tail, pos])
        n += 1
        pos += 1
        if pos >= total:
            break
    rep.count(states=n, transitions=4 * n, traces=n)
    rep.cover("cut_answers", n)


def queue(rep, names, cancelled, cut, chooser=None):
    """One task per command, started in order; those listed in `cancelled` are cancelled at any moment."""
    env = Env(chooser, horizon=1e5, max_iterations=10**6)
    env.preempt = True
    gw = Gateway(env, cut)
    stray = {"tainted": False}

    async def main():
        c = make_client(env)
        await c.start()
        tasks, wants, frames = [], [], []
        at_cancel = {}
        send = gw.on_frame

        def on_frame(f):
            if env.segments:
                # only possible after a cancellation in the middle of an exchange
                if not any(sent and not done for sent, done in at_cancel.values()):
                    raise Violation(f"{f!r} sent before the answer to {gw.sent[-1]!r} had arrived")
                stray["tainted"] = True
            send(f)

        env.on_frame = on_frame

        async def run(i, coro):
            return await coro

        plans = []
        for i, n in enumerate(names):
            coro, frame, ans, want = op(n, c, i)
            frames.append(gw.add(frame, ans))
            wants.append(want)
            plans.append(coro)
        for i, coro in enumerate(plans):
            tasks.append(asyncio.ensure_future(run(i, coro)))
        for i in cancelled:

            def cancel(i=i):
                at_cancel[i] = (any(f in gw.sent for f in frames[i]), tasks[i].done())
                tasks[i].cancel()

            env.actions.append(Event(f"cancel{i}", cancel))
        env.exploring = True
        await must(asyncio.wait(tasks), "the commands, some of them cancelled,", limit=500)
        env.exploring = False
        while env.actions:
            await asyncio.sleep(0.01)
        await quiet(env)
        for i, t in enumerate(tasks):
            if t.cancelled():
                if i not in cancelled:
                    raise Violation(f"{names[i]} was cancelled with another command")
                if not at_cancel[i][0] and any(f in gw.sent for f in frames[i]):
                    raise Violation(f"{names[i]} was cancelled before its turn and its frame was sent afterwards")
                if not at_cancel[i][0]:
                    rep.cover("cancelled_waiting")
                else:
                    rep.cover("cancelled_in_exchange")
                continue
            if not stray["tainted"]:
                if t.exception() is not None:
                    raise Violation(f"{names[i]} (number {i}) ended with {t.exception()!r}")
                same(t.result(), wants[i], f"result of {names[i]} (number {i})")
                for f in frames[i]:
                    if f not in gw.sent:
                        raise Violation(f"{f} was never sent")
            elif frames[i][0] not in gw.sent:
                raise Violation(f"{frames[i][0]} was never sent")
        # afterwards everything is in step
        for n in ("nack", "status"):
            coro, frame, ans, want = op(n, c, 5)
            gw.add(frame, ans)
            same(await must(coro, n), want, f"result of {n} after the cancellations")
        if len(set(gw.sent)) != len(gw.sent):
            raise Violation("a frame was sent twice")

    run_env(rep, env, main, gw, [names, cancelled, cut])


def run(rep, tier):
    thorough = tier == "thorough"
    cases = []
    tails = [["nack", "on"], ["on", "status"], ["dim", "nack"], ["power", "netinfo"], ["zoom", "auto"]]
    for a in KINDS:
        for tail in tails:
            for cut in ("frames", "joined", "shifted"):
                cases.append(([a], tail, "cancel", cut))
                for h in ("wait_for:0.5", "wait_for:1.1", "late", "late_rest", "cancel_paused"):
                    if h == "wait_for:1.1" and a in ("on", "nack", "zoom", "hsv"):
                        continue
                    cases.append(([a], tail, h, cut))
                for u in UNEXPECTED:
                    for i in (0, 1, 2):
                        cases.append(([a], tail, f"unexpected:{i}:{u}", cut))
            for h in ("unreadack", "unreadnack", "unreadevent", "unreaddim"):
                cases.append(([a], tail, h, "frames"))
    for a in KINDS:
        for b in KINDS:
            if a == b:
                continue
            cases.append(([a, b], ["nack", "status"], "cancel", "frames"))
            cases.append(([a, b], ["nack", "status"], "late", "joined"))
            cases.append(([a, b], ["nack", "status"], "wait_for:0.5", "frames"))
    for a in KINDS:
        # the other command session
        for tail in tails[:2]:
            for h in ("cancel", "late", "late_rest", "wait_for:0.5", "cancel_paused", "unreadack", "unreaddim", f"unexpected:0:{UNEXPECTED[0]}"):
                cases.append(([a], tail, h, "frames", "0"))
        # a lot of it
        for u in UNEXPECTED[:3]:
            for i in (0, 1):
                for n in (2, 5, 16, 70, 300, 2000) if thorough else (2, 5, 16, 70, 300):
                    cases.append(([a], tails[0], f"unexpected:{i}:{u}:{n}", "joined" if n % 2 else "frames"))
        for h in ("unreadack", "unreadnack", "unreadevent", "unreaddim"):
            for n in (2, 5, 16, 70, 300, 2000) if thorough else (2, 5, 16, 70, 300, 1100):
                cases.append(([a], ["nack", "on"] if h == "unreadack" else ["on", "status"], f"{h}:{n}", "joined" if n > 16 else "frames"))
    explore_all(rep, interrupted, cases, bound=3 if thorough else 2)
    rep.parallel_each(
        halved,
        lambda: ((a, b, t) for a in KINDS for b in (KINDS if thorough else ("on", "status", "power")) if a != b for t in (["nack", "dim"], ["auto", "on"])),
        limit=300,
    )
    cases = []
    for a in KINDS:
        for b in KINDS:
            if a == b == "netinfo":
                continue
            for x in ([0], [1]):
                cases.append(([a, b], x, "joined"))
                cases.append(([a, b], x, "frames"))
    explore_all(rep, queue, cases, bound=3 if thorough else 2)
    three = [["on", "status", "nack"], ["status", "dim", "power"], ["zoom", "gw", "auto"], ["nack", "netinfo", "on"], ["silent", "on", "nack"], ["stopgo", "hsv", "status"]]
    cases = [(n, x, "joined") for n in three for x in ([0], [1], [2], [0, 1], [1, 2], [0, 2], [0, 1, 2])]
    four = [["on", "status", "nack", "power"], ["status", "zoom", "dim", "nack"]]
    cases += [(n, x, "joined") for n in four for x in ([1], [2], [1, 2], [0, 1, 2])]
    explore_all(rep, queue, cases, bound=2 if thorough else 1)
