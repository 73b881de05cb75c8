"""C25: reading with a timeout neither loses nor duplicates nor delays messages.

One or two tasks read with the given timeouts while the segments of the gateway, the cancellations and the
passing of time happen in every possible order (a segment before, at the same instant as, or after a
timer).  Afterwards everything still unread is read.
"""
import asyncio
import itertools

from .core import CheckError, Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .vloop import Env, Event

ASSUMPTIONS = [
    "a message arriving at the very instant the timeout elapses may be returned or left for the next read",
    "reads after the connection is lost are not claimed, except that messages received before are still returned",
    "with concurrent readers, which of them gets a message is not claimed",
]

TOL = 0.02
LATE = 500.0  # time of the message that ends a read without timeout


def msg(k):
    return f"*1*{k % 2}*{11 + k}##"


def segments(pattern):
    """'m' a message, '2' two messages at once, 'h' half a message, 'H' its second half and one more."""
    out, k = [], 0
    for ch in pattern:
        if ch == "m":
            out.append((msg(k), 1))
            k += 1
        elif ch == "2":
            out.append((msg(k) + msg(k + 1), 2))
            k += 2
        elif ch == "h":
            out.append((msg(k)[:5], 0))
        elif ch == "H":
            out.append((msg(k)[5:] + msg(k + 1), 2))
            k += 2
    return out, k


def reading(rep, readers, pattern, cancels, ticks, drop, session, chooser=None):
    """readers: for each task its timeouts ("d" is the default); ticks: number of 0.4 s steps of the clock."""
    env = Env(chooser, horizon=5000.0)
    env.allow_tick_with_events = True
    env.merge_tick = True
    env.preempt = True
    segs, total = segments(pattern)
    arrived = []  # (time, message) in the order of delivery
    returned = []
    log = []
    current = {}
    st = {"extra": 0, "arr_done": False}

    def bad(text):
        raise Violation(f"{text}; history {log}")

    def unread():
        return arrived[len(returned) :]

    async def read(c, who, timeout, limit):
        start, had = env.now, len(unread())
        entry = len(log)
        log.append(f"{start}: reader {who} reads, timeout {timeout}")
        deadline = None if timeout is None else start + (5 if timeout == "d" else max(timeout, 0))
        try:
            m = await (c.read_message() if timeout == "d" else c.read_message(timeout=timeout))
        except TimeoutError:
            log.append(f"{env.now}: reader {who} timeout")
            if deadline is None:
                bad("TimeoutError from a read without timeout")
            if env.now < deadline - TOL:
                bad(f"TimeoutError at {env.now}, before the timeout elapsed at {deadline}")
            if env.now > deadline + TOL:
                bad(f"TimeoutError at {env.now}, the timeout elapsed at {deadline}")
            if had and len(readers) == 1:
                bad("TimeoutError although a message was available")
            for t, x in unread():
                # several readers: a message that none of them took
                if start <= t < deadline - TOL and len(unread()) >= len(current):
                    bad(f"TimeoutError at {env.now} although {x} was available since {t}")
            return
        except asyncio.CancelledError:
            log.append(f"{env.now}: reader {who} cancelled")
            raise
        text = str(m)
        log.append(f"{env.now}: reader {who} got {text}")
        u = unread()
        if not u:
            bad(f"{text} returned, but nothing is unread")
        if u[0][1] != text:
            bad(f"{text} returned, the oldest unread message is {u[0][1]}")
        returned.append(text)
        t = max(u[0][0], start)
        if env.now > t + TOL:
            bad(f"{text} was available at {t} and returned at {env.now}")
        if deadline is not None and env.now > deadline + TOL:
            bad(f"{text} returned at {env.now}, after the timeout at {deadline}")

    async def main():
        c, s = await started(env, getattr(SessionType, session))
        base = env.transport.feed
        queue = [n for _, n in segs]
        fed = {"k": 0}

        def feed(data):
            # arrival is observed at the transport, before the protocol sees the data
            n = queue.pop(0) if queue else 1
            names = [msg(fed["k"] + i) for i in range(n)]
            fed["k"] += n
            for x in names:
                arrived.append((env.now, x))
                log.append(f"{env.now}: {x} arrives")
            base(data)

        env.transport.feed = feed
        done = asyncio.Event()
        left = {"n": len(readers)}

        async def reader(i, timeouts):
            for t in timeouts:
                task = asyncio.ensure_future(read(c, i, t, None))
                current[i] = task
                try:
                    await task
                except asyncio.CancelledError:
                    pass
                del current[i]
            left["n"] -= 1
            if not left["n"]:
                done.set()

        async def ticker():
            for _ in range(ticks):
                await asyncio.sleep(0.4)

        def cancel(i, k):
            def run():
                t = current.get(i)
                if t is not None and not t.done():
                    log.append(f"{env.now}: reader {i} is cancelled")
                    t.cancel()

            return run

        env.exploring = True
        for data, _ in segs:
            env.send(data)
        if drop:
            env.drop()
        for k in range(cancels):
            i = k % len(readers)
            env.actions.append(Event(f"cancel{k}", cancel(i, k)))
        waits = sum(1 for r in readers for t in r if t is None)
        if not drop:
            for k in range(waits):
                n = total + k
                env.at(LATE + 100 * k, f"late{k}", lambda n=n: env.send(msg(n)))
        tasks = [asyncio.ensure_future(reader(i, r)) for i, r in enumerate(readers)]
        tasks.append(asyncio.ensure_future(ticker()))
        # a violation inside a reader ends the run
        await asyncio.wait([asyncio.ensure_future(done.wait()), *tasks[:-1]], return_when=asyncio.FIRST_EXCEPTION)
        for t in tasks[:-1]:
            if t.done() and t.exception():
                raise t.exception()
        env.exploring = False
        while env.segments and not env.transport.lost:
            await asyncio.sleep(0.001)
        await settle()
        log.append("the rest")
        while unread():
            current["main"] = None
            await read(c, "main", 1, None)
        current.clear()
        try:
            m = await c.read_message(timeout=1)
        except TimeoutError:
            pass
        else:
            bad(f"{m} returned at the end, nothing is unread")
        if [x for _, x in arrived] != returned:
            bad(f"arrived {arrived}, returned {returned}")

    kind, val = env.run(main())
    if kind == "raised":
        raise val
    if kind == "stuck":
        raise Violation(f"a read never ends ({val}); history {log}")


def lone(rep, timeouts, arrival, session):
    """One reader; the message arrives `arrival` seconds after the first read begins (None: never)."""
    env = Env(horizon=1e9, max_iterations=10**8)
    log = []

    async def main():
        c, s = await started(env, getattr(SessionType, session))
        t0 = env.now
        if arrival is not None:
            env.at(t0 + arrival, "message", lambda: env.send(msg(0)))
        came = None if arrival is None else t0 + arrival
        for t in timeouts:
            start = env.now
            deadline = None if t is None else start + t
            try:
                m = str(await c.read_message(timeout=t))
            except TimeoutError:
                log.append((t, "timeout", env.now - start))
                if deadline is None:
                    raise Violation(f"TimeoutError from a read without timeout after {env.now - start} s")
                if abs(env.now - deadline) > TOL:
                    raise Violation(f"a read with timeout {t} ended after {env.now - start} s")
                if came is not None and came < deadline - TOL:
                    raise Violation(f"TimeoutError after {env.now - start} s, a message was available since {came - start}")
                continue
            log.append((t, m, env.now - start))
            if came is None:
                raise Violation(f"{m} returned, nothing was sent")
            same(m, msg(0), "message read")
            if env.now > max(came, start) + TOL:
                raise Violation(f"{m} available since {came - start} was returned after {env.now - start} s")
            came = None
        if came is not None:
            await asyncio.sleep(max(came - env.now, 0) + 1)
            await drain(env)
            same(str(await must(c.read_message(timeout=1), "read")), msg(0), "message left unread")

    k, v = env.run(main())
    if k == "raised":
        raise v if isinstance(v, Violation) else Violation(f"{type(v).__name__}: {v}; {log}")
    if k == "stuck":
        raise Violation(f"a read never ends ({v}); {log}")
    rep.count(states=len(timeouts), transitions=len(timeouts), traces=1)
    rep.cover("long_reads")


def many(rep, count, cut, mode, session):
    """Many messages: all unread before the first read, or read by many waiting readers, or as they come."""
    env = Env(horizon=1e9, max_iterations=10**8)
    msgs = [f"*1*{k % 2}*{k}##" for k in range(1, count + 1)]

    async def main():
        c, s = await started(env, getattr(SessionType, session))
        got = []

        async def read():
            got.append(str(await c.read_message()))

        if mode == "waiting":
            ts = [asyncio.ensure_future(read()) for _ in range(count)]
            await settle(3)
        text = "".join(msgs)
        if cut == "joined":
            env.send(text)
        elif cut == "cut":
            env.send(*[text[i : i + 1000] for i in range(0, len(text), 1000)])
        else:
            env.send(*msgs)
        if mode == "unread":
            await drain(env)
        if mode == "waiting":
            await must(asyncio.wait(ts), f"{count} reads")
            for t in ts:
                t.result()
        else:
            for _ in range(count):
                await must(read(), f"read {len(got)} of {count}")
        if got != msgs:
            i = next((i for i, (a, b) in enumerate(zip(got, msgs)) if a != b), None)
            raise Violation(f"{count} messages, {mode}, {cut}: message {i} read is {got[i]}, the one received {msgs[i]}")
        try:
            m = await c.read_message(timeout=1)
        except TimeoutError:
            return
        raise Violation(f"{m} returned, nothing is unread")

    k, v = env.run(main())
    if k == "raised":
        raise v if isinstance(v, Violation) else Violation(f"{type(v).__name__}: {v}; {count} messages, {mode}, {cut}")
    if k == "stuck":
        raise Violation(f"a read never ends ({v}); {count} messages, {mode}, {cut}")
    rep.count(states=count, transitions=count, traces=1)
    rep.cover("long_queues")


LONG = [0.25, 0.5, 1.5, 2.5, 4, 6, 9, 11, 29, 31, 59, 60, 61, 100, 299, 301, 599, 601, 3599, 3601]


def long_cases(tier):
    for s in ("CommandSession", "EventSession"):
        for t in LONG:
            for a in (None, t / 2, t - 0.1, t + 0.1, t + 0.6):
                yield [t], a, s
                yield [t, 1], a, s
                yield [t, t], a, s
            yield [None], t, s
            if t > 1.05:  # else the first read takes the only message
                yield [1, None], t, s
        for a in (86401, 100003) if tier != "thorough" else (86401, 100003, 604801, 2000003):
            yield [None], a, s


def cases(tier):
    full = tier == "thorough"
    ts = [0, 1, 2, "d", None]
    out = []
    # one reader, two reads of every kind, all patterns
    for a, b in itertools.product(ts, repeat=2):
        for p in ("", "m", "mm", "2", "hH"):
            out.append(([[a, b]], p, 0, 3, False, "CommandSession"))
            out.append(([[a, b]], p, 1, 2, False, "EventSession"))
    for t in itertools.product([1, 2, None], repeat=3):
        for p in ("mm", "m2", "mhH"):
            out.append(([list(t)], p, 1 if full or p == "mm" else 0, 3 if full else 1, False, "CommandSession"))
    # two readers
    for a, b in itertools.product([1, 2, None], repeat=2):
        for p in ("m", "mm", "2"):
            out.append(([[a], [b]], p, 0, 2, False, "CommandSession"))
            out.append(([[a], [b]], p, 1, 1, False, "CommandSession"))
            if full:
                out.append(([[a, b], [b]], p, 1, 1, False, "CommandSession"))
                out.append(([[a], [b]], p, 2, 1, False, "CommandSession"))
    # the connection is lost after the messages
    for a, b in itertools.product([0, 1, "d"], repeat=2):
        for p in ("m", "mm", "2"):
            out.append(([[a, b]], p, 0, 2, True, "CommandSession"))
    if full:
        for t in itertools.product([0, 1, 2, "d", None], repeat=3):
            for p in ("mmm", "2m", "hHm"):
                out.append(([list(t)], p, 0, 3, False, "CommandSession"))
                out.append(([list(t)], p, 2, 0, False, "CommandSession"))
    return out


def run(rep, tier):
    full = tier == "thorough"
    cs = cases(tier)
    rep.cover("programs", len(cs))
    rep.parallel_each(lone, lambda: long_cases(tier), limit=300)
    counts = [20, 70, 130, 260, 520, 1100, 5000] + ([20000] if full else [])
    rep.parallel_each(
        many,
        lambda: (
            (n, cut, mode, s)
            for n in counts
            for cut in ("joined", "cut", "frames")
            for mode in ("unread", "waiting", "coming")
            for s in ("CommandSession", "EventSession")
        ),
        limit=300,
    )
    explore_all(rep, reading, cs, bound=2 if full else 1, limit=30)
    rep.sample("read(timeout=1); a message arrives at the instant the timeout elapses; read(timeout=2)")
    rep.sample("read() cancelled while two messages arrive at once; read(timeout=None)")
