"""C16: the client keeps one item per address, of the right class (all the request histories up to a depth)."""
import asyncio
import itertools

from .core import Violation
from .util import *  # noqa: F401,F403
from .vloop import Env
from pyown.exceptions import InvalidTag
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.gateway import Gateway
from pyown.items.lighting import Light
from pyown.tags import Where, Who

ASSUMPTIONS = ["the gateway is addressed with an empty WHERE, as documented"]

CLASSES = {"1": Light, "2": Automation, "7": Camera, "13": Gateway, "18": EnergyManagement}

ADDRESSES = [
    ("1", "12"), ("1", "1"), ("1", "01"), ("1", "0115#4#01"), ("1", "12#4#01"), ("1", "#1"), ("1", "0"),
    ("2", "12"), ("2", "1"), ("2", "0115"), ("7", "4000"), ("7", "4001"), ("13", ""),
    ("18", "51"), ("18", "52"), ("18", "11"), ("18", "71#0"), ("18", "72#0"), ("18", "5255"),
]  # fmt: skip
BAD = [("18", "99"), ("18", ""), ("18", "71#2"), ("18", "5"), ("18", "#1"), ("18", "0")]
NOCLASS = [(w, "12") for w in WHO_CODES if w not in CLASSES] + [("4", "0"), ("0", "1")]

MEANINGLESS = ["*2*7*13##", "*#1*12*1*150##"]

_env = None


def env():
    global _env
    if _env is None:
        _env = Env()
    return _env


def fresh_clients():
    """Two clients (a client only needs a loop to be created)."""
    loop = env().loop
    return [Client("192.168.1.35", 20000, "12345", loop=loop), Client("192.168.1.36", 20000, "12345", SessionType.EventSession, loop=loop)]


def history(rep, requests):
    """requests: (cache, client to bind, who, where)."""
    clients = fresh_clients()
    known = {}
    for i, (cache, bind, who, where) in enumerate(requests):
        key = (cache, who, where)
        what = f"request {i} of {requests}"
        try:
            item = clients[cache].get_item(Who(who), Where(where), client=clients[bind])
        except KeyError:
            if who in CLASSES:
                raise Violation(f"{what} raised KeyError")
            continue
        except InvalidTag:
            if (who, where) not in BAD:
                raise Violation(f"{what} raised InvalidTag")
            continue
        if who not in CLASSES or (who, where) in BAD:
            raise Violation(f"{what} returned {item!r}")
        if not isinstance(item, CLASSES[who]):
            raise Violation(f"{what}: {type(item).__name__} instead of {CLASSES[who].__name__}")
        if str(item.where) != where or str(item.who) != who:
            raise Violation(f"{what}: item for who {item.who}, where {item.where}")
        if key in known:
            if known[key][0] is not item:
                raise Violation(f"{what}: a new object for the same address")
        else:
            for k, (other, _) in known.items():
                if other is item:
                    raise Violation(f"{what}: the object of {k} for another address")
            known[key] = (item, bind)
        if item.client is not clients[known[key][1]]:
            raise Violation(f"{what}: the item is not bound to the client of its first request")
    # nothing requested later has changed the items
    for (cache, who, where), (item, bind) in known.items():
        if (str(item.where), str(item.who)) != (where, who) or item.client is not clients[bind]:
            raise Violation(f"the item of {(cache, who, where)} changed during {requests}")


def with_events(rep, ops):
    """Requests and received events; what the events made known are the items of the requests, and nothing else.

    ops: ("get", who, where) or ("event", frame, who, where).
    """
    e = Env(horizon=1e6)

    async def main():
        c, _ = await started(e, SessionType.EventSession)
        other = make_client(e)
        t = asyncio.ensure_future(c.loop(client=other))
        await settle(3)
        known = {}

        def request(who, where, what):
            try:
                item = c.get_item(Who(who), Where(where), client=c)
            except KeyError:
                if who in CLASSES:
                    raise Violation(f"{what} raised KeyError after {ops}")
                return
            except InvalidTag:
                if (who, where) not in BAD:
                    raise Violation(f"{what} raised InvalidTag after {ops}")
                return
            if who not in CLASSES or (who, where) in BAD:
                raise Violation(f"{what} returned {item!r} after {ops}")
            if not isinstance(item, CLASSES[who]) or (str(item.who), str(item.where)) != (who, where):
                raise Violation(f"{what}: {type(item).__name__} for who {item.who}, where {item.where}, after {ops}")
            old = known.setdefault((who, where), [item, c])
            if old[0] is None:
                old[0] = item
            if old[0] is not item:
                raise Violation(f"{what}: a new object for the same address, after {ops}")
            if old[1] is not None and item.client is not old[1]:
                raise Violation(f"{what}: the item is not bound to the client it was first requested for, after {ops}")

        addresses = []
        for op in ops:
            if op[0] == "get":
                request(op[1], op[2], f"get_item{tuple(op[1:])}")
                addresses.append(tuple(op[1:]))
            else:
                e.send(op[1])
                await drain(e)
                await settle(10)
                addresses.append(tuple(op[2:]))
                if op[2] in CLASSES and tuple(op[2:]) not in BAD:
                    # to which client a message without meaning binds the item is not claimed
                    known.setdefault(tuple(op[2:]), [None, None if op[1] in MEANINGLESS else other])
        for a in addresses:
            request(*a, f"get_item{a}")
        items = [v[0] for v in known.values()]
        if len({id(x) for x in items}) != len(items):
            raise Violation(f"one object for different addresses: {list(known)}")
        if t.done():
            raise Violation(f"the loop ended after {ops}: {t!r}")

    k, v = e.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"stuck: {v}")
    rep.count(states=len(ops), transitions=len(ops), traces=1)
    rep.cover("histories_with_events")


def many(rep, n, bind, keep):
    """Many items, none of them forgotten: each is bound to the client of its first request."""
    import gc

    clients = fresh_clients()
    addresses = [("1", f"{a}{p}") for a in range(10) for p in range(10)] + [("18", f"5{i}") for i in range(1, 256)]
    addresses += [("2", f"{i:04d}#4#{j:02d}") for j in range(1, 16) for i in range(101, 1000)]
    addresses = [("13", ""), *addresses][:n]
    first = {}
    for i, (who, where) in enumerate(addresses):
        item = clients[0].get_item(Who(who), Where(where), client=clients[(i + bind) % 2])
        if keep:
            first[i] = item
        del item
    gc.collect()
    for order in (range(n), range(n - 1, -1, -1)):
        for i in order:
            who, where = addresses[i]
            item = clients[0].get_item(Who(who), Where(where), client=clients[(i + bind + 1) % 2])
            if item.client is not clients[(i + bind) % 2]:
                raise Violation(f"the item {(who, where)}, one of {n}, is not bound to the client of its first request")
            if keep and item is not first[i]:
                raise Violation(f"a new object for {(who, where)}, one of {n}")
            if (str(item.who), str(item.where)) != (who, where):
                raise Violation(f"the item of {(who, where)}, one of {n}, is at {item.who}, {item.where}")
    rep.count(states=n, transitions=3 * n, traces=1)
    rep.cover("items_kept", n)


def block(rep, firsts, alphabet, depth):
    n = 0
    for f in firsts:
        for rest in itertools.product(alphabet, repeat=depth - 1):
            history(rep, [f, *rest])
            n += 1
    rep.count(states=n, transitions=n * depth, traces=n)
    rep.cover("histories", n)


def replay_block(rep, firsts, alphabet, depth):
    """Find the failing history of a block and report it by itself."""
    for f in firsts:
        for rest in itertools.product(alphabet, repeat=depth - 1):
            req = [list(f), *[list(r) for r in rest]]
            nv = len(rep.violations)
            rep.call(history, req)
            if len(rep.violations) > nv:
                return


def run(rep, tier):
    thorough = tier == "thorough"
    full = [(c, b, w, a) for c in (0, 1) for b in (0, 1) for w, a in ADDRESSES + BAD + NOCLASS]
    small = [(c, b, w, a) for c, b in ((0, 0), (0, 1), (1, 1)) for w, a in
             [("1", "12"), ("2", "12"), ("1", "1"), ("18", "51"), ("18", "99"), ("4", "0"), ("13", "")]]  # fmt: skip

    def jobs(alphabet, depth):
        def job(f):
            def run_one(r):
                nv = len(r.violations)
                r.call(block, [f], alphabet, depth, limit=600)
                if len(r.violations) > nv:
                    r.violations.pop()
                    r.stop = False
                    replay_block(r, [f], alphabet, depth)

            return run_one

        return [job(f) for f in alphabet]

    sizes = [1, 2, 3, 10, 17, 33, 65, 129, 257, 1025, 5000] + ([13000] if thorough else [])
    rep.parallel_each(many, lambda: ((n, b, k) for n in sizes for b in (0, 1) for k in (False, True)), limit=300)
    mixed = [("event", f"*{w}*1*{a}##", w, a) for w, a in (("1", "12"), ("2", "12"), ("4", "12"), ("0", "1"), ("3", "12"), ("22", "12"))]
    mixed += [("event", f"*#18*{a}*113*5##", "18", a) for a in ("51", "99", "5", "71#2")] + [("event", "*#13**15*2##", "13", "")]
    mixed += [("event", "*7*0*4000##", "7", "4000"), ("event", MEANINGLESS[0], "2", "13"), ("event", MEANINGLESS[1], "1", "12")]
    mixed += [("get", w, a) for w, a in (("1", "12"), ("2", "12"), ("4", "12"), ("0", "1"), ("18", "51"), ("18", "99"), ("13", ""), ("2", "13"))]
    rep.parallel_each(with_events, lambda: ((list(t),) for n in range(1, 5 if thorough else 4) for t in itertools.product(mixed, repeat=n)), limit=300)
    rep.parallel(jobs(full, 2))
    mid = [(0, b, w, a) for b in (0, 1) for w, a in ADDRESSES + BAD + NOCLASS[:4]]
    rep.parallel(jobs(mid, 3))
    rep.parallel(jobs(small, 5 if thorough else 4))
    if thorough:
        rep.parallel(jobs(full, 3))
    rep.sample([list(x) for x in small[:3]])
