"""C01: the received frames do not depend on how TCP cuts the stream."""
import asyncio
import itertools

from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK, FRAMES, SENTINEL
from .vloop import Env, VTransport, run_simple

ASSUMPTIONS = [
    "the transport delivers the bytes in order and never delivers an empty segment",
    "frames ending with '###' are excluded: the terminator is ambiguous in a stream",
]

# (frames, separators): streams short enough for every segmentation
SHORT = [
    (["*#*1##"], ["", ""]),
    (["*1*1*1##"], ["", ""]),
    (["*#*1##", "*#*0##"], ["", "", ""]),
    (["*#*1##", "*#*1##"], ["", "", ""]),
    (["*1*1*1##", "*#*1##"], ["", "", ""]),
    (["*#*1##", "*1*0*2##"], ["", "", ""]),
    (["*#1*2##", "*#*1##"], ["", "", ""]),
    (["*1*1*1#3##"], ["", ""]),
    (["*#1*1*1*2##"], ["", ""]),
    (["*#1*1*#1*5##"], ["", ""]),
    (["*#18*51*52#1#2*3##"[:0] + "*#18*5*52#1*3##"], ["", ""]),
    (["*#12##", "*#*1##"], [" ", "", "\n"]),
    (["*#*1##", "*1*1*1##"], ["", "\n", ""]),
    (["*#*1##", "*#*0##"], ["\r\n", " ", "\t"]),
    (["*5##", "*5##", "*6##"], ["", "", "", ""]),
    (["*98*2##", "*#7##"], ["", "\r\n", ""]),
]
SHORT_MORE = [
    (["*#*1##", "*#*0##", "*#*1##"], ["", "", "", ""]),
    (["*1*1*12##", "*#1*12##"], ["", "", ""]),
    (["*#1*1#3*1#2*5##"], [" ", ""]),
    (["*5##", "*6##", "*7##", "*8##"], ["", "", "", "", ""]),
    (["*1*1*1##", "*1*0*1##"], [" ", "\n", " "]),
    (["*#13**0*1*2*3##"], ["", "\n"]),
]


def stream(frames, seps):
    out = seps[0]
    for f, s in zip(frames, seps[1:]):
        out += f + s
    return out.encode()


def cut(data, mask):
    """Cut after byte i when bit i of mask is set."""
    out = []
    last = 0
    for i in range(len(data) - 1):
        if mask >> i & 1:
            out.append(data[last : i + 1])
            last = i + 1
    out.append(data[last:])
    return out


def cut_at(data, points):
    pts = [0, *points, len(data)]
    return [data[a:b] for a, b in zip(pts, pts[1:]) if b > a]


async def deliver(env, chunks, frames, early=False):
    """Feed the chunks to a protocol and read everything back; early: read as soon as available."""
    p, _, _ = new_protocol(env.loop)
    got = []
    reader = None
    if early:

        async def read():
            for _ in range(len(frames) + 1):
                got.append((await p.receive_messages()).message)

        reader = asyncio.ensure_future(read())
        await asyncio.sleep(0)
    for c in chunks:
        p.data_received(c)
        if early:
            await asyncio.sleep(0)
    p.data_received(SENTINEL.encode())
    if early:
        await reader
    else:
        for _ in range(len(frames) + 1):
            got.append((await p.receive_messages()).message)
    if got != frames + [SENTINEL]:
        raise Violation(
            f"segments {chunks!r}: read {got[:-1] if got[-1:] == [SENTINEL] else got}, expected {frames}"
        )


def all_masks(rep, frames, seps, lo, hi):
    """Every segmentation whose cut set is in [lo, hi), read after and while receiving."""
    data = stream(frames, seps)

    async def main(env):
        for mask in range(lo, hi):
            chunks = cut(data, mask)
            try:
                await deliver(env, chunks, frames, early=bool(mask & 1))
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"segments {chunks!r}: {type(e).__name__}: {e}")
            rep.count(states=1, transitions=len(chunks), traces=1)

    run_simple(main, max_iterations=10**9)


def few_cuts(rep, frames, seps, k, part, parts):
    """Every segmentation with exactly k cuts (stripe `part` of `parts`)."""
    data = stream(frames, seps)

    async def main(env):
        for i, pts in enumerate(itertools.combinations(range(1, len(data)), k)):
            if i % parts != part:
                continue
            chunks = cut_at(data, pts)
            try:
                await deliver(env, chunks, frames, early=i % 2 == 1)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"segments {chunks!r}: {type(e).__name__}: {e}")
            rep.count(states=1, transitions=len(chunks), traces=1)

    run_simple(main, max_iterations=10**9)


def two_connections(rep, fa, fb, fates):
    """Two protocols, each with its own stream: every cut of the first, the second one received (whole, or
    cut anywhere) in between; the first connection either goes on, is lost, or is dropped."""
    da, db = fa.encode(), fb.encode()

    async def one(env, i, j, fate):
        pa, _, _ = new_protocol(env.loop)
        if fate == "before":
            pb, _, _ = new_protocol(env.loop)
        if i:
            pa.data_received(da[:i])
        if fate == "lost":
            pa.connection_made(VTransport(env, env.loop, pa))
            pa.connection_lost(None)
        if fate != "before":
            pb, _, _ = new_protocol(env.loop)
        if j:
            pb.data_received(db[:j])
        if fate != "lost":
            pa.data_received(da[i:] + SENTINEL.encode())
        pb.data_received(db[j:] + SENTINEL.encode())
        for p, f, d in ((pa, fa, "first"), (pb, fb, "second")):
            if p is pa and fate == "lost":
                continue
            got = []
            for _ in range(2):
                try:
                    async with asyncio.timeout(1):
                        got.append((await p.receive_messages()).message)
                except TimeoutError:
                    break
            same(got, [f, SENTINEL], f"messages of the {d} connection (cut at {i}, other one cut at {j}, {fate})")

    async def main(env):
        for i in range(len(da) + 1):
            for j in range(len(db) + 1):
                for fate in fates:
                    try:
                        await one(env, i, j, fate)
                    except Violation:
                        raise
                    except Exception as e:
                        raise Violation(f"{fa} cut at {i}, {fb} cut at {j}, {fate}: {type(e).__name__}: {e}")
                    rep.count(states=1, transitions=4, traces=1)

    run_simple(main, max_iterations=10**9, horizon=1e9)


def sized_frames(which, n):
    if which == "many":
        return [FRAMES[i % len(FRAMES)] for i in range(n)]
    if which == "acks":
        return [ACK] * n
    if which == "values":
        return ["*#13**22" + "".join(f"*{i}" for i in range(n)) + "##", "*1*1*11##"]
    if which == "params":
        return ["*1*1000" + "".join(f"#{i}" for i in range(n)) + "*11##", ACK]
    if which == "digits":
        return ["*#18*51*113*" + "7" * n + "##", "*#*0##"]
    if which == "tags":
        return ["*99" + "*5" * n + "##", ACK]
    raise KeyError(which)


def big(rep, which, n, size, early):
    """Large streams and frames cut in equal segments of `size` bytes."""
    frames = sized_frames(which, n)
    data = "".join(frames).encode()
    chunks = [data[i : i + size] for i in range(0, len(data), size)]

    async def main(env):
        await deliver(env, chunks, frames, early=early)

    run_simple(main, max_iterations=10**9)
    rep.count(states=len(chunks), transitions=len(chunks) + len(frames), traces=1)


def client_schedule(rep, frames, cuts, nread, chooser=None):
    """Arrival of the segments against nread sequential reads of a client, every interleaving."""
    data = "".join(frames).encode()
    segs = cut_at(data, cuts)

    async def main():
        c, _ = await started(env)
        env.exploring = True
        env.preempt = True
        env.send(*segs)
        got = []

        async def read():
            for _ in range(nread):
                got.append(str(await c.read_message(timeout=None)))

        t = asyncio.ensure_future(read())
        await t
        env.exploring = False
        await drain(env)
        for _ in range(len(frames) - nread):
            got.append(str(await c.read_message(timeout=1)))
        try:
            extra = await c.read_message(timeout=1)
        except TimeoutError:
            extra = None
        same((got, extra), (frames, None), "messages read from the client")

    env = Env(chooser)
    kind, val = env.run(main())
    if kind == "raised":
        raise val
    if kind == "stuck":
        raise Violation(f"read_message never returned ({val}), segments {segs}")


def real_socket(rep, frames, size):
    """Conformance: the same stream through the real event loop and a loopback TCP connection."""
    data = "".join(frames).encode()
    segs = [data[i : i + size] for i in range(0, len(data), size)]

    async def main():
        async def serve(r, w):
            w.write(b"*#*1##")
            await w.drain()
            await r.readuntil(b"##")
            w.write(b"*#*1##")
            await w.drain()
            await r.readuntil(b"##")
            for s in segs:
                w.write(s)
                await w.drain()
                await asyncio.sleep(0)
            await r.read()
            w.close()

        srv = await asyncio.start_server(serve, "127.0.0.1", 0)
        port = srv.sockets[0].getsockname()[1]
        c = Client("127.0.0.1", port, "12345", SessionType.CommandSession)
        await c.start()
        await c.send_message(parse_message("*1*1*11##"))
        got = [str(await c.read_message(timeout=10)) for _ in frames]
        await c.close()
        srv.close()
        same(got, frames, "messages read through a real connection")

    asyncio.run(main())
    rep.count(states=1, transitions=len(segs), traces=1)


def run(rep, tier):
    thorough = tier == "thorough"
    jobs = []
    short = SHORT + (SHORT_MORE if thorough else [])
    cap = 18 if thorough else 14
    for frames, seps in short:
        n = len(stream(frames, seps)) - 1
        if n > cap + 1:
            continue
        step = 1 << max(0, n - 3) if n >= 12 else 1 << n
        for lo in range(0, 1 << n, step):
            jobs.append(
                lambda r, a=(frames, seps, lo, min(lo + step, 1 << n)): r.call(all_masks, *a, limit=300)
            )
    longs = [FRAMES, list(reversed(FRAMES)), [f for f in FRAMES for _ in (0, 1)][:30]]
    if not thorough:
        longs = longs[:2]
    for fr in longs:
        seps = ["", *[["", "\n", " ", "\r\n"][i % 4] for i in range(len(fr))]]
        for k, parts in ((0, 1), (1, 1), (2, 16 if thorough else 8)):
            for p in range(parts):
                jobs.append(lambda r, a=(fr, seps, k, p, parts): r.call(few_cuts, *a, limit=300))
    for fr in ([FRAMES[2:8], FRAMES[8:12]] if not thorough else [FRAMES[2:8], FRAMES[8:14], FRAMES[14:20]]):
        for p in range(8):
            jobs.append(lambda r, a=(fr, [""] * (len(fr) + 1), 3, p, 8): r.call(few_cuts, *a, limit=600))
    big_cases = []
    for which, n in (("many", 600), ("acks", 3000), ("values", 3000), ("params", 2000), ("digits", 12000), ("tags", 5000)):
        for size in (1, 2, 3, 5, 7, 13, 64, 512, 1024, 1460, 4096, 8192, 10**9):
            big_cases.append((which, n, size, False))
            big_cases.append((which, n, size, True))
    for which, n in (("many", 20000), ("acks", 70000), ("values", 30000), ("digits", 300000)):
        for size in (1460, 65536, 262144, 10**9):
            big_cases.append((which, n, size, False))
            big_cases.append((which, n, size, True))
    for a in big_cases:
        jobs.append(lambda r, a=a: r.call(big, *a, limit=120))
    rep.parallel(jobs)
    pairs = [("*1*1*12##", "*#*1##"), ("*#1*12*1*2*3##", "*2*1*33##"), ("*#*1##", "*#*0##"), ("*#18*71#0*72#1##", "*1*0*12##")]
    rep.each(two_connections, [(a, b, ["before", "after", "lost"]) for x in pairs for a, b in (x, x[::-1])])
    rep.cover("pairs_of_connections", len(pairs) * 2)
    sched = []
    f3 = ["*1*1*12##", "*#*1##", "*#1*12*1*2*3##"]
    total = len("".join(f3))
    for cuts in itertools.combinations(range(1, total), 2):
        if thorough or (cuts[0] % 3 == 2 and cuts[1] % 2 == 0) or {9, 15, 8, 14} & set(cuts):
            for nread in (1, 3):
                sched.append((f3, list(cuts), nread))
    explore_all(rep, client_schedule, sched, bound=3 if thorough else 2)
    rep.each(real_socket, [(FRAMES, s) for s in (1, 2, 7, 50, 10**6)])
    rep.sample({"stream": stream(*SHORT[4]).decode(), "segmentations": "all 2^13 cut sets"})
    rep.sample({"stream_of_frames": len(FRAMES), "segmentations": "all with 0, 1 and 2 cuts"})
    rep.cover("short_streams_all_segmentations", len(short))
    rep.cover("large_streams", len(big_cases))
    rep.cover("client_schedules", len(sched))
