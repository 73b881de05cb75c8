"""Histories of registrations and events that start without any registered callback.

The registries belong to the classes and there is no way to unregister, so every history runs in a
forked process of its own.
"""
import asyncio

from . import cbs
from .core import Violation, same
from .events import EVENTS, norm
from .util import *  # noqa: F401,F403
from .vloop import Env
from pyown.tags import Where, Who


def frames_of(prefix):
    """The event frames of the kinds starting with prefix, one per kind (plus those that reach nothing)."""
    out = {}
    for f, (k, _) in EVENTS.items():
        if k and k.startswith(prefix):
            out.setdefault(k, f)
    return list(out.values())


def check(frame, calls, where):
    kind, args = EVENTS[frame]
    names = cbs.of_kind(kind) if kind else []
    if sorted(c[0] for c in calls) != names:
        raise Violation(f"{where}: event {frame} reached {[c[0] for c in calls]}, registered for it: {names}")
    for name, item, got in calls:
        same(norm(kind, got), norm(kind, args), f"{where}: arguments of {name} for {frame}")
        msg = parse_message(frame)
        same((str(item.who), str(item.where)), (str(msg.who), str(msg.where)), f"{where}: item of {frame}")


def registrations(rep, ops):
    """ops: ["+", callback name] registers, ["e", frame] is an event while the loop runs."""

    def child():
        env = Env(horizon=1e7)
        calls = []

        async def handler(name, item, args):
            calls.append((name, item, args))

        async def main():
            c, _ = await started(env, SessionType.EventSession)
            t = asyncio.ensure_future(c.loop())
            await settle(3)
            for i, (op, arg) in enumerate(ops):
                if op == "+":
                    cbs.register(arg)
                    continue
                env.send(arg)
                await drain(env)
                await settle(20)
                check(arg, calls, f"step {i} of {ops}")
                calls.clear()
            await asyncio.sleep(5)
            if calls or t.done():
                raise Violation(f"after {ops}: calls {calls}, loop {t!r}")

        cbs.use(handler)
        k, v = env.run(main())
        if k == "raised":
            raise v
        if k == "stuck":
            raise Violation(f"stuck: {v}")

    cbs.partial(child)
    rep.count(states=len(ops), transitions=len(ops), traces=1)
    rep.cover("registration_histories")


def two_clients(rep, ops):
    """ops: [client, frame]: the events of two event sessions of one program, each on its own items."""

    def child():
        env = Env(horizon=1e7)
        calls = []

        async def handler(name, item, args):
            calls.append((name, item, args))

        async def main():
            cs, ts, items = [], [], {}
            for _ in range(2):
                c, _ = await started(env, SessionType.EventSession)
                cs.append(c)
                ts.append(asyncio.ensure_future(c.loop()))
                await settle(3)
            for i, (k, frame) in enumerate(ops):
                asyncio.get_running_loop().call_soon(env.transports[k].feed, frame.encode())
                await settle(20)
                check(frame, calls, f"step {i} of {ops}")
                for name, item, _ in calls:
                    key = (k, str(item.who), str(item.where))
                    if items.setdefault(key, item) is not item:
                        raise Violation(f"step {i} of {ops}: two items for {key}")
                    if item.client is not cs[k] or cs[k].get_item(Who(key[1]), Where(key[2]), client=cs[k]) is not item:
                        raise Violation(f"step {i} of {ops}: the item of {frame} belongs to another client")
                calls.clear()
            if len({id(x) for x in items.values()}) != len(items):
                raise Violation(f"{ops}: the clients share an item")
            for k in (0, 1):
                await cs[k].close()
                await settle(20)
                if not ts[k].done() or ts[1].done() != bool(k):
                    raise Violation(f"{ops}: closing client {k}: loops ended {[t.done() for t in ts]}")

        for name in cbs.REGISTER:
            cbs.register(name)
        cbs.use(handler)
        k, v = env.run(main())
        if k == "raised":
            raise v
        if k == "stuck":
            raise Violation(f"stuck: {v}")

    cbs.partial(child)
    rep.count(states=len(ops), transitions=len(ops), traces=1)
    rep.cover("two_client_histories")


def crowd(rep, kind_frame, count, behaviour):
    """Many callbacks for one kind: all of them are called, once each, for every event."""

    def child():
        env = Env(horizon=1e7, max_iterations=10**8)
        calls = []
        kind, args = EVENTS[kind_frame]
        name = next(n for n in cbs.REGISTER if n.split(".")[0] == kind)

        def make(i):
            async def cb(item, *got):
                calls.append((i, item, got))
                if behaviour == "raise" and i % 2:
                    raise ValueError("boom")
                if behaviour == "block":
                    await asyncio.get_running_loop().create_future()

            return cb

        async def main():
            c, _ = await started(env, SessionType.EventSession)
            t = asyncio.ensure_future(c.loop())
            await settle(3)
            for i in range(count):
                cbs.REGISTER[name](make(i))
            for n in range(3):
                env.send(kind_frame)
                await drain(env)
                await settle(20)
                same(sorted(i for i, _, _ in calls), list(range(count)), f"callbacks of {count} called for event {n}, {kind_frame}")
                for _, item, got in calls:
                    same(norm(kind, got), norm(kind, args), f"arguments for {kind_frame}")
                    if item is not calls[0][1]:
                        raise Violation(f"two items for {kind_frame}")
                calls.clear()
            if t.done():
                raise Violation(f"the loop ended: {t!r}")

        k, v = env.run(main())
        if k == "raised":
            raise v
        if k == "stuck":
            raise Violation(f"stuck: {v}")

    cbs.partial(child)
    rep.count(states=count * 3, transitions=count * 3, traces=1)
    rep.cover("crowds_of_callbacks")


def flood(rep, count, addresses, behaviour, delivery, gap):
    """Many events on many addresses, with callbacks that never end: each is dispatched, in order, on its item."""

    def child():
        env = Env(horizon=1e9, max_iterations=10**8)
        calls = []

        async def handler(name, item, args):
            calls.append((name, item, args))
            if behaviour == "block":
                await asyncio.get_running_loop().create_future()
            if behaviour == "raise":
                raise ValueError("boom")

        events = [(str(n % 2), f"{n % addresses + 1}") for n in range(count)]

        async def main():
            c, _ = await started(env, SessionType.EventSession)
            t = asyncio.ensure_future(c.loop())
            await settle(3)
            text = [f"*2*{w}*{a}##" for w, a in events]
            if delivery == "joined":
                env.send("".join(text))
            else:
                for i, f in enumerate(text):
                    env.send(f)
                    if gap:
                        await drain(env)
                        await asyncio.sleep(gap)
            await drain(env)
            await asyncio.sleep(1)
            await settle(20)
            if t.done():
                raise Violation(f"the loop ended: {t!r}")
            got = [(str(a[0]), str(i.where)) for _, i, a in calls]
            if got != events:
                n = next((n for n, (x, y) in enumerate(zip(got, events)) if x != y), min(len(got), len(events)))
                raise Violation(f"{count} events on {addresses} addresses ({behaviour}): {len(got)} calls, the first difference at event {n}")
            items = {}
            for _, i, _ in calls:
                if items.setdefault(str(i.where), i) is not i:
                    raise Violation(f"two items for the address {i.where} after {len(items)} others")
            for a, i in items.items():
                if c.get_item(Who("2"), Where(a), client=c) is not i:
                    raise Violation(f"the item of {a} is not the one of get_item")

        cbs.register("automation.a")
        cbs.use(handler)
        k, v = env.run(main())
        if k == "raised":
            raise v
        if k == "stuck":
            raise Violation(f"stuck: {v}")

    cbs.partial(child)
    rep.count(states=count, transitions=count, traces=1)
    rep.cover("floods")


def pairs_of(prefixes, others=()):
    """For every callback alone: all the events; for every pair of kinds: the second one registered later."""
    names = [n for n in cbs.REGISTER if n.startswith(tuple(prefixes))]
    frames = [f for p in prefixes for f in frames_of(p)] + list(others)
    for n in names:
        mine = [f for f in frames if EVENTS[f][0] == n.split(".")[0]]
        yield [["+", n], *[["e", f] for f in frames]]
        for f in frames:
            yield [["e", f], ["+", n], ["e", f], *[["e", g] for g in mine]]
    for n in names:
        for m in names:
            if n < m:
                fs = [f for f in frames if EVENTS[f][0] in (n.split(".")[0], m.split(".")[0])]
                yield [["+", n], *[["e", f] for f in fs], ["+", m], *[["e", f] for f in fs]]
    # everything but one
    for n in names:
        yield [*[["+", m] for m in names if m != n], *[["e", f] for f in frames], ["+", n], *[["e", f] for f in frames]]


__all__ = ["registrations", "two_clients", "pairs_of", "crowd", "flood", "frames_of"]
