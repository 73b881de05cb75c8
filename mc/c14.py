"""C14: every event reaches exactly its callbacks, once, on the right item."""
import asyncio

from . import cbs
from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .events import EVENTS, norm
from .partial import crowd, flood, frames_of, pairs_of, registrations, two_clients
from .util import ACK
from .vloop import Env, Event
from pyown.exceptions import InvalidMessage, InvalidSession
from pyown.tags import Where, Who

ASSUMPTIONS = [
    "the order in which the callbacks of one event start is not claimed, only the order between events",
    "requests and writings seen on the bus by lights, automations and energy items are not judged",
]

class Boom(BaseException):
    """Not an Exception."""


BEHAVIOURS = {
    "plain": lambda name: None,
    "raise_a": lambda name: ValueError("boom") if not name.endswith((".b", ".dimmer")) else None,
    "raise_b": lambda name: InvalidMessage("boom") if name.endswith((".b", ".dimmer")) else None,
    "raise_all": lambda name: InvalidSession("boom"),
    "raise_key": lambda name: KeyError("boom") if not name.endswith((".b", ".dimmer")) else TimeoutError("boom"),
    "cancelled": lambda name: asyncio.CancelledError() if not name.endswith((".b", ".dimmer")) else None,
    "block_a": lambda name: "block" if not name.endswith((".b", ".dimmer")) else None,
    "block_all": lambda name: "block",
    "slow_all": lambda name: "slow",
}


class Recorder:
    def __init__(self, behaviour):
        self.calls = []
        self.behaviour = BEHAVIOURS[behaviour]

    async def __call__(self, name, item, args):
        self.calls.append((name, item, args))
        b = self.behaviour(name)
        if b is None:
            return
        if b == "block":
            await asyncio.get_running_loop().create_future()
        elif b == "slow":
            await asyncio.sleep(100)
        else:
            raise b


def judge(frames, calls, client, owner, known=()):
    """Every call, in order, against the events; known: the items requested before, by address."""
    i = 0
    items = dict(known)
    for n, frame in enumerate(frames):
        kind, args = EVENTS[frame]
        names = cbs.of_kind(kind) if kind else []
        part = calls[i : i + len(names)]
        i += len(names)
        if sorted(c[0] for c in part) != names:
            raise Violation(
                f"event {n} ({frame}) of {frames}: callbacks called {[c[0] for c in part]}, expected {names}; "
                f"all the calls {[(c[0], str(c[1].where)) for c in calls]}"
            )
        if not names:
            continue
        msg = parse_message(frame)
        for name, item, got in part:
            same(norm(kind, got), norm(kind, args), f"arguments of {name} for {frame}")
            same((str(item.who), str(item.where)), (str(msg.who), str(msg.where)), f"item given to {name} for {frame}")
            if item.client is not owner:
                raise Violation(f"the item of {frame} is not bound to the client given to the loop")
            key = (str(msg.who), str(msg.where))
            if items.setdefault(key, item) is not item:
                raise Violation(f"two objects for the same address {key}")
            if client.get_item(Who(key[0]), Where(key[1]), client=client) is not item:
                raise Violation(f"the item given to {name} is not the one of get_item for {key}")
    if i != len(calls):
        raise Violation(f"unexpected calls {[(c[0], str(c[1].where)) for c in calls[i:]]} for {frames}")
    if len({id(x) for x in items.values()}) != len(items):
        raise Violation(f"one object for different addresses: {list(items)}")


def dispatch(rep, frames, behaviour, delivery, other, early=None):
    """A history of events in one delivery mode (deterministic)."""
    env = Env(horizon=1e7)
    r = Recorder(behaviour)

    async def main():
        c, _ = await started(env, SessionType.EventSession)
        owner = make_client(env, SessionType.EventSession if other == "event" else None) if other else c
        known = {}

        def request():
            for f in frames:
                if EVENTS[f][0]:
                    m = parse_message(f)
                    known[(str(m.who), str(m.where))] = c.get_item(m.who, m.where, client=owner)

        if early == "before":
            request()
        t = asyncio.ensure_future(c.loop(client=owner) if other else c.loop())
        if early == "after":
            await settle()
            request()
        if delivery == "joined":
            env.send("".join(frames))
        elif delivery == "cut":
            s = "".join(frames)
            env.send(*[s[i : i + 7] for i in range(0, len(s), 7)])
        elif delivery == "gaps":
            for f in frames:
                await asyncio.sleep(4000)
                env.send(f)
                await drain(env)
                await settle(20)
        else:
            for f in frames:
                env.send(f)
                await drain(env)
                await settle(20)
        await drain(env)
        await settle(40 + 4 * len(frames))
        await asyncio.sleep(7)
        if t.done():
            raise Violation(f"the loop ended ({t.exception()!r}) with the connection alive, events {frames}")
        judge(frames, r.calls, c, owner, known)
        if env.frames:
            raise Violation(f"the loop sent {env.frames}")

    cbs.use(r)
    try:
        k, v = env.run(main())
    finally:
        cbs.use(None)
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"stuck: {v}")
    rep.count(states=len(frames), transitions=len(frames), traces=1)
    rep.cover("histories")


def schedule(rep, frames, behaviour, chooser=None):
    """The same under every schedule of the segments within the bound."""
    env = Env(chooser, horizon=1e7)
    env.preempt = True
    r = Recorder(behaviour)

    async def main():
        c, _ = await started(env, SessionType.EventSession)
        env.exploring = True
        t = None
        done = asyncio.Event()

        def go():
            nonlocal t
            t = asyncio.ensure_future(c.loop())

        env.actions.append(Event("loop", go))
        for f in frames:
            env.send(f[: len(f) // 2], f[len(f) // 2 :])
        while env.actions or env.segments:
            await asyncio.sleep(0.001)
        env.exploring = False
        await settle(60)
        if t.done():
            raise Violation(f"the loop ended ({t.exception()!r}) with the connection alive")
        judge(frames, r.calls, c, c)

    cbs.use(r)
    try:
        k, v = env.run(main())
    finally:
        cbs.use(None)
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"stuck: {v}")


def shared(good, thorough):
    """Histories of two clients: the same address on both, then every event on one after every event on the other."""
    import itertools

    small = ["*1*1*12##", "*1*0*12##", "*2*2*12##", "*#18*51*113*1234##"]
    for t in itertools.product([[k, f] for k in (0, 1) for f in small], repeat=4 if thorough else 3):
        yield list(t)
    for f in good:
        for g in good if thorough else good[::5]:
            yield [[0, f], [1, g], [1, f], [0, g]]


def run(rep, tier):
    thorough = tier == "thorough"
    names = list(EVENTS)
    good = [f for f in names if EVENTS[f][0]]

    def gen():
        # every event and every faulty frame alone, in every mode
        for f in names:
            for b in BEHAVIOURS:
                for d in ("single", "joined", "cut", "gaps"):
                    for other in (False, True, "event"):
                        yield [f, "*2*1*77##"], b, d, other
            # its item was requested before the loop or before the event
            for d in ("single", "joined"):
                for other in (False, True, "event"):
                    for early in ("before", "after"):
                        yield [f, "*2*1*77##", f], "plain", d, other, early
        # all pairs
        for f in names:
            for g in names:
                for b, d, o in (("plain", "joined", False), ("raise_a", "single", True), ("block_all", "cut", False)):
                    yield [f, g, "*1*1*12##"], b, d, o
        # long histories: all the events, rotated
        for k in range(len(names)):
            for b in BEHAVIOURS:
                yield names[k:] + names[:k], b, ("joined", "cut", "single", "gaps")[k % 4], bool(k & 4)
        # all the triples of a small set
        small = ["*1*1*12##", "*1*0*12##", "*2*2*12##", "*#18*51*113*1234##", "*#13**#0*21*10*05*001##", "*2*7*12##", "*#18*99*113*1##", ACK, "*4*1*2##"]
        depth = 4 if thorough else 3
        import itertools

        for t in itertools.product(small, repeat=depth):
            yield list(t), "plain", "joined", False
            yield list(t), "raise_a", "cut", True
        if thorough:
            for t in itertools.product(names, names, small):
                yield list(t), "block_a", "single", False

    # first: these histories need processes without registered callbacks
    every = ("light", "automation", "camera", "gateway", "energy")
    rep.parallel_each(registrations, lambda: ((ops,) for ops in pairs_of(every, [f for f in names if not EVENTS[f][0]])))
    rep.parallel_each(
        crowd, lambda: ((f, n, b) for p in every for f in frames_of(p) for n in (3, 9, 17, 33, 70, 150) for b in ("plain", "raise", "block")), limit=200
    )
    rep.parallel_each(
        flood,
        lambda: (
            (n, a, b, d, g)
            for n, a in ((300, 2), (1500, 1500), (1500, 40), (3000, 2200))
            for b in ("plain", "raise", "block")
            for d, g in (("joined", 0), ("single", 0), ("single", 0.5), ("single", 400))
        ),
        limit=200,
    )
    rep.parallel_each(two_clients, lambda: ((ops,) for ops in shared(good, thorough)))
    rep.parallel_each(dispatch, gen)
    cases = []
    for a, b, c in (
        ("*1*1*12##", "*2*2*12##", "*1*0*12##"),
        ("*#13**0*21*10*05*001##", ACK, "*#18*51*113*1234##"),
        ("*2*7*12##", "*1*1*12##", "*#18*71#0*72#2*4500*01*02*2021*03*04##"),
        ("*#18*99*113*1##", "*2*0*12##", "*2*0*12##"),
        ("*4*1*2##", "*1*1*12##", "*1*1*12##"),
    ):
        for beh in BEHAVIOURS:
            cases.append(([a, b, c], beh))
    explore_all(rep, schedule, cases, bound=3 if thorough else 2)
    rep.sample({"events": names[:3], "callbacks": cbs.of_kind("light_status")})
