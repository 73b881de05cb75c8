"""C13: writing respects the back-pressure of the transport and never hangs or loses.

The transport pauses the writing by itself inside a write (as asyncio does when its buffer is full) or at
any other moment, resumes it at any moment, and may lose the connection meanwhile; 1 to 3 tasks send.
"""
import asyncio
from collections import Counter

from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK
from .vloop import Env, Event
from pyown.items.lighting import Light

ASSUMPTIONS = [
    "the order between the messages of different tasks is not claimed",
    "a send pending when the connection is lost may end normally or with an error",
    "while the environment still has events to deliver, at most 0.35 s (three polls of the tree's code) elapse; longer pauses (up to ten minutes, two hours in the thorough tier) are enumerated separately",
]


def frame(kind, i, j):
    """m: a short message, l: one of about 50 bytes, x: one of about 70000 bytes, c: the command of an item, e: always the same."""
    if kind == "e":
        return "*1*1*9##"
    if kind == "l":
        return f"*#13*{i}{j}*#22*12*30*01*001*04*09*12*2021*111*222*333##"
    if kind == "x":
        return f"*#13*{i}{j}*#22*" + "*".join(str(v) for v in range(10000, 22000)) + "##"
    return f"*1*{'0' if kind == 'c' else '1'}*{i}{j}##"


def writing(rep, tasks, pauses, end, sync_pause, chooser=None):
    """tasks: messages per task; pauses: pause/resume pairs at any moment; end: None, drop, error, close."""
    env = Env(chooser, horizon=0.35)
    env.preempt = True
    env.allow_tick_with_events = True
    st = {"paused": False, "lost": False, "left": sync_pause, "n": 0}
    log = []
    accepted = []  # frames taken by a living transport

    def pause():
        if st["lost"] or st["paused"]:
            return
        st["paused"] = True
        log.append("pause")
        env.transport.protocol.pause_writing()

    def resume():
        if st["lost"] or not st["paused"]:
            return
        st["paused"] = False
        log.append("resume")
        env.transport.protocol.resume_writing()

    def add(label, fn):
        def run():
            fn()
            check_horizon()

        env.actions.append(Event(label, run))
        env.horizon = env.now + 0.35
        env.allow_tick_with_events = True

    def check_horizon():
        if not env.actions:
            env.horizon = 1000.0
            env.allow_tick_with_events = False

    def on_raw(tr, data):
        if not env.exploring and not st["n"]:
            return
        if st["paused"]:
            raise Violation(f"{data!r} written while the writing is paused; history {log}")
        log.append(data.decode())

    def on_frame(f):
        if f.startswith("*99*"):
            env.send(ACK)
            return
        accepted.append(f)
        if f.startswith("*1*0*"):
            env.send(ACK)

    take = env.on_write

    def on_write(tr, data):
        take(tr, data)
        # the buffer may be full after any write
        if st["n"] and st["left"] and not st["lost"] and env.exploring and chooser.flip(2):
            st["left"] -= 1
            pause()
            add("resume", resume)

    env.on_write = on_write
    env.on_raw_write = on_raw
    env.on_frame = on_frame
    order = {}

    async def main():
        c = make_client(env)
        await c.start()
        st["n"] = 1
        finished = []
        gate = asyncio.Event()
        running = []

        async def sender(i, spec):
            for j, kind in enumerate(spec):
                order.setdefault(i, []).append(frame(kind, i, j))
                try:
                    if kind == "c":
                        await Light(c, f"{i}{j}").turn_off()
                    else:
                        await c.send_message(parse_message(frame(kind, i, j)))
                except Exception as e:
                    if not st["lost"]:
                        raise Violation(f"send raised {type(e).__name__}: {e}; history {log}")
                    log.append(f"send {i}{j} raised {type(e).__name__}")
                finished.append((i, j))

        env.exploring = True
        for i, spec in enumerate(tasks):

            def start(i=i, spec=spec):
                running.append(asyncio.ensure_future(sender(i, spec)))
                st["n"] += 1
                if st["n"] == 1 + len(tasks):
                    gate.set()

            add(f"start{i}", start)

        def cycle(n):
            def p():
                pause()

                def r():
                    resume()
                    if n > 1:
                        cycle(n - 1)

                add("resume", r)

            add("pause", p)

        if pauses:
            cycle(pauses)
        lost = asyncio.Event()
        if end is not None:

            def drop():
                st["lost"] = True
                log.append(end)
                if end == "close":
                    running.append(asyncio.ensure_future(c.close()))
                elif end == "drop":
                    env.transport.feed_eof()
                else:
                    env.transport.feed_error(ConnectionResetError("peer"))
                lost.set()

            add("end", drop)
        await gate.wait()
        if end is not None:
            await lost.wait()
        for t in list(running):
            await must(asyncio.wait([t]), f"a pending send (history {log})", limit=60)
            if t.exception() is not None:
                raise t.exception()
        while env.actions:
            await asyncio.sleep(0.1)
        if st["lost"]:
            # later sends terminate, too
            env.exploring = False
            try:
                await must(c.send_message(parse_message("*1*1*99##")), "a send after the loss", limit=60)
            except Violation:
                raise
            except Exception:
                pass
            got = list(accepted)
        else:
            same(sorted(accepted), sorted(sum(order.values(), [])), f"messages written (history {log})")
            got = accepted
        for i in order:
            # the equal messages of several tasks cannot be told apart
            own = [f for f in order[i] if f != frame("e", 0, 0)]
            mine = [f for f in got if f in own]
            if mine != own[: len(mine)]:
                raise Violation(f"order of the messages of a task: {mine} instead of {order[i]}; history {log}")
        if Counter(got) - Counter(sum(order.values(), [])):
            raise Violation(f"message written twice: {got}")
        if env.wbuf:
            raise Violation(f"incomplete message written: {env.wbuf!r}")

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"a send never terminates ({v}); history {log}")
    rep.sample(log)


def long_pause(rep, kinds, when, length, end, again):
    """The writing stays paused for any length of (virtual) time; then it resumes or the connection ends."""
    env = Env(horizon=1e7, max_iterations=10**7)
    st = {"paused": False}

    def on_raw(tr, data):
        if st["paused"]:
            raise Violation(f"{data!r} written after {env.now - st['since']} s of a pause of {length} s")

    accepted = []

    def on_frame(f):
        if f.startswith("*99*"):
            env.send(ACK)
            return
        accepted.append(f)
        if f.startswith("*1*0*"):
            env.send(ACK)

    env.on_raw_write = on_raw
    env.on_frame = on_frame

    def pause():
        st.update(paused=True, since=env.now)
        env.transport.protocol.pause_writing()

    def resume():
        st["paused"] = False
        env.transport.protocol.resume_writing()

    async def one(c, i, kind):
        if kind == "c":
            await Light(c, str(i)).turn_off()
        else:
            await c.send_message(parse_message(frame(kind, i, "")))

    async def main():
        c = make_client(env)
        await c.start()
        for round in range(2 if again else 1):
            if when == "before":
                pause()
            ts = [asyncio.ensure_future(one(c, 10 * round + i, k)) for i, k in enumerate(kinds)]
            if when == "first":
                while not accepted:
                    await asyncio.sleep(0)
                pause()
            n = len(accepted)
            await asyncio.sleep(length)
            same(len(accepted), n, "messages written while paused")
            if end is None:
                resume()
                done, left = await asyncio.wait(ts, timeout=60)
                if left:
                    raise Violation(f"a send is still waiting 60 s after a pause of {length} s")
                for t in ts:
                    if t.exception() is not None:
                        raise Violation(f"a send raised {t.exception()!r} after a pause of {length} s")
                want = [frame(k, 10 * round + i, "") for i, k in enumerate(kinds)]
                same(sorted(accepted), sorted(want), "messages written")
                accepted.clear()
            else:
                st["paused"] = False
                if end == "close":
                    await c.close()
                elif end == "drop":
                    env.transport.feed_eof()
                else:
                    env.transport.feed_error(ConnectionResetError("peer"))
                done, left = await asyncio.wait(ts, timeout=60)
                if left:
                    raise Violation(f"a send is still waiting 60 s after the connection ended ({end})")
                [t.exception() for t in ts]
                return

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"a send never terminates ({v})")
    rep.count(states=len(kinds) + 2, transitions=len(kinds) + 2, traces=1)
    rep.cover("long_pauses")


def unread(rep, tasks, room, closes, chooser=None):
    """The peer stops reading; the client is closed at any moment and the peer reads again at any moment."""
    env = Env(chooser, horizon=0.35)
    env.preempt = True
    env.allow_tick_with_events = True
    accepted, log, before = [], [], None

    def on_frame(f):
        if f.startswith("*99*"):
            env.send(ACK)
        else:
            accepted.append(f)

    env.on_frame = on_frame

    async def main():
        nonlocal before
        c = make_client(env)
        await c.start()
        tr = env.transport
        tr.room = room
        done, running = [], []

        async def sender(i, n):
            for j in range(n):
                try:
                    await c.send_message(parse_message(frame("m", i, j)))
                except Exception as e:
                    if before is None:
                        raise Violation(f"send raised {type(e).__name__}: {e}; history {log}")
                    return
                log.append(f"sent {i}{j}")
                done.append(frame("m", i, j))

        def step(label, fn):
            def run():
                log.append(label)
                fn()
                if not env.actions:
                    env.horizon = 1000.0
                    env.allow_tick_with_events = False
                    gate.set()

            env.actions.append(Event(label, run))

        gate = asyncio.Event()

        def close():
            nonlocal before
            before = list(done)
            running.append(asyncio.ensure_future(c.close()))

        env.exploring = True
        for i, n in enumerate(tasks):
            step(f"start{i}", lambda i=i, n=n: running.append(asyncio.ensure_future(sender(i, n))))
        step("peer reads", tr.flush)
        if closes:
            step("close", close)
        await gate.wait()
        for t in list(running):
            await must(asyncio.wait([t]), f"a pending send (history {log})", limit=60)
            if t.exception() is not None:
                raise t.exception()
        env.exploring = False
        await settle(20)
        if closes:
            missing = [f for f in before if f not in accepted]
            if missing:
                raise Violation(f"{missing} sent before close() never reached the peer; history {log}")
            if not tr.conn_lost_called:
                raise Violation(f"the connection is still open after close(); history {log}")
        else:
            same(sorted(accepted), sorted(frame("m", i, j) for i, n in enumerate(tasks) for j in range(n)), f"messages read by the peer (history {log})")
        for i, n in enumerate(tasks):
            mine = [f for f in accepted if f in {frame("m", i, j) for j in range(n)}]
            if mine != [frame("m", i, j) for j in range(len(mine))]:
                raise Violation(f"the peer read {mine} of task {i}; history {log}")
        rep.cover("unread")

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"never terminates ({v}); history {log}")
    rep.sample(log)


LENGTHS = [0.05, 0.1, 0.35, 1, 2.5, 4.9, 5.1, 9.9, 10.1, 29, 31, 61, 121, 301, 601]


def crowd(rep, tasks, per_task, length, end, kind="m"):
    """Many messages wait for the writing to resume."""
    env = Env(horizon=1e7, max_iterations=10**7)
    st = {"paused": False}
    accepted = []

    def on_raw(tr, data):
        if st["paused"]:
            raise Violation(f"{data!r} written while the writing is paused")

    def on_frame(f):
        if f.startswith("*99*"):
            env.send(ACK)
        else:
            accepted.append(f)

    env.on_raw_write = on_raw
    env.on_frame = on_frame

    def text(k, i):
        return f"*1*{k}*{i}##" if kind == "m" else frame(kind, k + 10, i + 1000)

    async def main():
        c = make_client(env)
        await c.start()
        st["paused"] = True
        env.transport.protocol.pause_writing()

        async def sender(i):
            for k in range(per_task):
                await c.send_message(parse_message(text(k, i)))

        ts = [asyncio.ensure_future(sender(i)) for i in range(tasks)]
        await asyncio.sleep(length)
        st["paused"] = False
        if end is None:
            env.transport.protocol.resume_writing()
        else:
            env.transport.feed_eof()
        done, left = await asyncio.wait(ts, timeout=60 + 2 * tasks)
        if left:
            raise Violation(f"{len(left)} of {tasks} senders still wait 60 s after the end of the pause")
        if end is None:
            for t in ts:
                t.result()
            for i in range(tasks):
                mine = [text(k, i) for k in range(per_task)]
                own = set(mine)
                if kind != "e":
                    same([f for f in accepted if f in own], mine, f"messages of task {i} of {tasks}")
            same(len(accepted), tasks * per_task, "messages written")
        else:
            [t.exception() for t in ts]

    k, v = env.run(main())
    if k == "raised":
        raise v if isinstance(v, Violation) else Violation(f"{type(v).__name__}: {v}")
    if k == "stuck":
        raise Violation(f"a send never terminates ({v})")
    rep.count(states=tasks * per_task, transitions=tasks * per_task, traces=1)
    rep.cover("crowds")


def run(rep, tier):
    thorough = tier == "thorough"
    cases = []
    for end in (None, "drop", "error", "close"):
        cases += [
            ([["m"]], 1, end, 0),
            ([["m", "m"]], 1, end, 0),
            ([["m"], ["m"]], 1, end, 0),
            ([["m", "m"]], 0, end, 1),
            ([["m", "m", "m"]], 0, end, 2),
            ([["m", "m"], ["m"]], 0, end, 1),
        ]
    cases += [
        ([["m"]], 2, None, 0),
        ([["m", "m"]], 2, None, 0),
        ([["c"]], 1, None, 0),
        ([["c", "c"]], 0, None, 1),
        ([["c"], ["m"]], 0, None, 1),
        ([["c"], ["c"]], 1, None, 0),
        ([["m"], ["m"], ["m"]], 0, None, 1),
    ]
    # long messages
    for end in (None, "drop"):
        cases += [([["l"], ["l"]], 1, end, 0), ([["l", "l"], ["m"]], 0, end, 1), ([["l"], ["l"], ["m"]], 0, end, 1)]
    cases += [([["l"], ["c"]], 1, None, 0)]
    # equal messages
    for end in (None, "drop"):
        cases += [([["e", "e"]], 1, end, 0), ([["e"], ["e"]], 1, end, 0), ([["e", "m", "e"]], 0, end, 1)]
    if thorough:
        cases += [
            ([["l"], ["l"], ["l"]], 1, None, 0),
            ([["m", "m"], ["m", "m"]], 0, None, 2),
            ([["m"], ["m"], ["m"]], 1, None, 0),
            ([["m", "m"], ["m"]], 1, None, 1),
            ([["m", "m", "m", "m"]], 0, "drop", 3),
            ([["m"], ["m"], ["m"]], 0, "error", 2),
            ([["c", "c"], ["m"]], 1, None, 0),
        ]
    lengths = LENGTHS + [1801, 3601, 7201] if thorough else LENGTHS
    rep.parallel_each(
        long_pause,
        lambda: (
            (kinds, when, length, end, again)
            for length in lengths
            for kinds in (["m"], ["m", "m"], ["m", "m", "m"])
            for when in ("before", "first")
            for end in (None, "drop", "error", "close")
            for again in (False, True)
            if not (end and again) and not (again and when == "first") and not (when == "first" and len(kinds) == 1)
        ),
        limit=120,
    )
    rep.parallel_each(
        long_pause,
        lambda: (
            (kinds, when, length, end, False)
            for length in (0.35, 2.5, 31)
            for kinds in (["l", "l"], ["l", "x"], ["x", "x"], ["x", "m", "l"], ["e", "e"], ["e", "m", "e"])
            for when in ("before", "first")
            for end in (None, "drop", "error", "close")
        ),
        limit=120,
    )
    rep.parallel_each(crowd, lambda: ((n, m, t, None, k) for k, n, m in (("l", 1, 50), ("l", 20, 5), ("x", 3, 2), ("e", 1, 20), ("e", 20, 1), ("e", 5, 5)) for t in (0.05, 1)), limit=300)
    if not thorough:
        rep.parallel_each(long_pause, lambda: ((["m"], "before", t, None, False) for t in (1801, 3601, 7201, 14401)), limit=300)
    rep.parallel_each(
        crowd,
        lambda: ((n, m, t, end) for n, m in ((1, 200), (20, 20), (40, 1), (150, 1), (300, 2)) for t in (0.05, 1, 30) for end in (None, "drop")),
        limit=300,
    )
    # a command waits for its answer only 5 s, but from the moment it is written
    rep.parallel_each(long_pause, lambda: ((["c"], "before", length, None, a) for length in lengths for a in (False, True)), limit=120)
    unreads = [(t, room, closes) for t in ([1], [2], [1, 1], [3], [2, 1]) for room in (0, 1, 2) for closes in (False, True)]
    explore_all(rep, unread, unreads + ([([2, 2], 1, True), ([1, 1, 1], 1, True)] if thorough else []), bound=3 if thorough else 2)
    explore_all(rep, writing, cases, bound=3 if thorough else 2)
