"""Running many item commands on one started client of the virtual loop."""
import asyncio

from .core import Violation
from .util import ACK, must, started
from .vloop import Env


def run_session(body, session=None, answer=None, horizon=1e9, max_iterations=10**9):
    """body(client, script) runs with a started client; its exceptions propagate."""
    env = Env(horizon=horizon, max_iterations=max_iterations)

    async def main():
        c, s = await started(env, session, answer or (lambda f: [ACK]))
        await body(c, s)

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"blocked ({v})")


async def sends(s, coro, frame, what):
    """The command sends exactly that frame and completes."""
    s.frames.clear()
    try:
        r = await must(coro, what)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}; sent {s.frames}")
    if s.frames != [frame]:
        raise Violation(f"{what} sent {s.frames}, expected {[frame]}")
    return r


async def refused(s, call, what, exc=Exception):
    """The command raises (the documented exception) before anything is sent."""
    s.frames.clear()
    try:
        await must(call(), what)
    except Violation:
        raise
    except Exception as e:
        if not isinstance(e, exc):
            raise Violation(f"{what} raised {type(e).__name__} ({e}) instead of {exc.__name__}")
        await asyncio.sleep(0)
        if s.frames:
            raise Violation(f"{what} raised but sent {s.frames}")
        return
    raise Violation(f"{what} was accepted, sent {s.frames}")


async def lenient(s, call, frame, what):
    """Either refused before anything is sent, or sent as given (range not documented)."""
    s.frames.clear()
    try:
        await must(call(), what)
    except Violation:
        raise
    except Exception:
        if s.frames:
            raise Violation(f"{what} raised but sent {s.frames}")
        return
    if s.frames != [frame]:
        raise Violation(f"{what} sent {s.frames}, expected {[frame]}")


def run_events(rep, events, norm=list, per_segment=1):
    """Feed event frames to the loop of an event session and compare every callback call.

    events: list of (frame, kind, args); all the callbacks of that kind, and only those, must be called
    once with the item at the address of the frame and these arguments.
    """
    from . import cbs
    from .util import SessionType, drain, parse_message, settle

    calls = []

    async def handler(name, item, args):
        calls.append((name, item, args))

    async def body(c, s):
        env = s.env
        t = asyncio.ensure_future(c.loop())
        await settle(3)
        for i in range(0, len(events), per_segment):
            part = events[i : i + per_segment]
            calls.clear()
            env.send("".join(f for f, _, _ in part))
            await drain(env)
            for _ in range(60):
                await settle(4 + 2 * len(part))
                if len(calls) >= sum(len(cbs.of_kind(k)) for _, k, _ in part if k):
                    break
            await settle(4)
            j = 0
            for frame, kind, args in part:
                names = cbs.of_kind(kind) if kind else []
                got = calls[j : j + len(names)]
                j += len(names)
                if sorted(x[0] for x in got) != names:
                    raise Violation(f"event {frame}: callbacks {[x[0] for x in calls]}, expected {names} with {args}")
                for name, item, a in got:
                    if norm(a) != list(args) or [type(x) for x in norm(a)] != [type(x) for x in args]:
                        raise Violation(f"event {frame}: {name} called with {a}, expected {tuple(args)}")
                    want = str(parse_message(frame).where)
                    if str(item.where) != want:
                        raise Violation(f"event {frame}: item at {item.where}")
            if j != len(calls):
                raise Violation(f"events {[p[0] for p in part]}: extra calls {[(x[0], x[2]) for x in calls[j:]]}")
        if t.done():
            raise Violation(f"the loop ended: {t!r}")

    cbs.use(handler)
    try:
        run_session(body, SessionType.EventSession)
    finally:
        cbs.use(None)
    rep.count(states=len(events), transitions=len(events), traces=len(events))
    rep.cover("events", len(events))


async def answers_of(s, call, frame, answers, what, conv, per=200):
    """The values yielded by a request for every answer, many answers per exchange."""
    out = []
    for i in range(0, len(answers), per):
        part = answers[i : i + per]
        s.frames.clear()
        s.answer = lambda f, part=part: ["".join(part[: len(part) // 2]), "".join(part[len(part) // 2 :]) + ACK] if f == frame else [ACK]
        got = []

        async def all_of():
            async for x in call():
                got.append(conv(x))

        try:
            await must(all_of(), what)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what} raised {type(e).__name__}: {e} after {got[-1:]}; answers {part[:3]}...; sent {s.frames}")
        if s.frames != [frame]:
            raise Violation(f"{what} sent {s.frames}, expected {[frame]}")
        out += got
    return out


def compare(what, answers, got, want):
    for a, g, w in zip(answers, got, want):
        if g != w or [type(x) for x in g] != [type(x) for x in w]:
            raise Violation(f"{what}: answer {a} decoded as {g}, expected {w}")
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} values for {len(want)} answers")
