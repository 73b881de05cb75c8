"""C02: malformed input is reported, never delivered, and loses nothing before it."""
import asyncio
import itertools

from .core import Violation, same
from .explore import explore_all
from .util import *  # noqa: F401,F403
from .util import ACK, FRAMES, SENTINEL
from .c01 import cut, cut_at
from .vloop import Env, run_simple
from pyown.exceptions import ParseError

ASSUMPTIONS = [
    "a terminator without a frame (`##` where a frame should begin) is not judged",
    "control characters that only Python regards as blank (VT, FF, FS-US) between frames are not judged",
    "what follows the malformed bytes on the connection is not judged (the connection is closed)",
]

BLANK = b" \t\r\n"
ODD_BLANK = b"\x0b\x0c\x1c\x1d\x1e\x1f"  # blank for Python, not judged between frames
BODY = b"0123456789#*"


def ref(data):
    """Reference reading of a stream: (frames, None | set of admissible errors | 'skip')."""
    frames = []
    pos, n = 0, len(data)
    while True:
        while pos < n and data[pos] in BLANK:
            pos += 1
        if pos >= n:
            return frames, None
        if data[pos] != 0x2A:
            if data.startswith(b"##", pos) or data[pos:] == b"#" or data[pos] in ODD_BLANK:
                return frames, "skip"
            return frames, errors(data, pos)
        i = pos
        while True:
            if i >= n:
                return frames, None
            if data.startswith(b"##", i):
                frames.append(data[pos : i + 2].decode())
                pos = i + 2
                break
            if data[i] not in BODY:
                return frames, errors(data, i)
            i += 1


def errors(data, pos):
    if data[pos] >= 0x80:
        return {"UnicodeDecodeError"}
    out = {"ParseError"}
    if any(b >= 0x80 for b in data[pos:]):
        out.add("UnicodeDecodeError")
    return out


def kind(e):
    if isinstance(e, ParseError):
        return "ParseError"
    if isinstance(e, UnicodeDecodeError):
        return "UnicodeDecodeError"
    return type(e).__name__


async def judge(env, chunks, frames, err):
    p, _, _ = new_protocol(env.loop)
    raised = None
    for c in chunks:
        try:
            p.data_received(c)
        except Exception as e:
            raised = kind(e)
            break
    if raised is None:
        if err is not None:
            raise Violation(f"segments {chunks!r}: malformed data accepted silently, expected {err}")
    elif err is None:
        raise Violation(f"segments {chunks!r}: well-formed stream rejected with {raised}")
    elif raised not in err:
        raise Violation(f"segments {chunks!r}: {raised} instead of {err}")
    got = []
    for _ in frames:
        # a missing message would wait forever: found as a deadlock of the virtual loop
        env.note = (chunks, frames, got)
        got.append((await p.receive_messages()).message)
    if got != frames:
        raise Violation(f"segments {chunks!r}: delivered {got}, expected {frames}")
    extra = asyncio.ensure_future(p.receive_messages())
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    if extra.done():
        raise Violation(f"segments {chunks!r}: malformed bytes delivered as {extra.result().message!r}")
    extra.cancel()


def run_judge(coro_fn):
    env = Env(max_iterations=10**9)
    env.note = None
    k, v = env.run(coro_fn(env))
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"a well-formed frame before the malformed bytes was lost: (segments, frames, got)={env.note}")


def strings(rep, head, alphabet, length, tail, part, parts):
    """head + every string of that length over the alphabet + tail, under every segmentation of the
    varying part (and one cut before and after)."""
    alphabet = [x.encode("latin-1") for x in alphabet]
    head, tail = head.encode("latin-1"), tail.encode("latin-1")

    async def main(env):
        for i, w in enumerate(itertools.product(alphabet, repeat=length)):
            if i % parts != part:
                continue
            mid = b"".join(w)
            data = head + mid + tail
            frames, err = ref(data)
            if err == "skip":
                continue
            h, m = len(head), len(mid)
            for mask in range(1 << (m + 1)):
                pts = [h + b for b in range(m + 1) if mask >> b & 1]
                pts = [p for p in pts if 0 < p < len(data)]
                if mask and len(pts) < bin(mask).count("1"):
                    continue
                chunks = cut_at(data, pts)
                await judge(env, chunks, frames, err)
                rep.count(states=1, transitions=len(chunks), traces=1)

    run_judge(main)


BAD = [
    b"deadbeef", b"deadbeef##", b"12##", b"#1##", b"1*1*1##", b"#*1##", b"*1*a*2##", b"*1* 1*2##",
    b"*1*1*2\x00##", b"*1*1*2\n##", b"*1*1\t*2##", b"*1*1*-2##", b"*1*1*2.5##", b"*1,1*2##", b"*1*1*2#\xff#",
    b"\xff", b"\xff\xfe", b"*1*1*\xc3\xa92##", b"*1*1*2\x80##", b"\x80##", b"*#13**0*12*\xb2##", b"+*1*1*1##",
    b"GET / HTTP/1.1\r\n\r\n", b"*1*1*11###", b"*1*1*11# ##", b"*1*1*11#\n#", b"*x", b"*1*1*12345678901234567890x##",
    b"x*1*1*11##", b"*1*1*11##x", b"*1*1*11## x", b"*1*1*11##\x7f", b"*\xef\xbc\x91##", b"*1*1*1\xc2\xa0##",
    b"*" + b"1*" * 300 + b"z##", b"*" + b"1" * 3000 + b"\xff##", b"z" * 5000, b"*1*1*11#" + b"5" * 2000 + b"?##",
]  # fmt: skip


def bad_after(rep, good, bad, after, maxcuts, step):
    """Good frames, then the bad bytes, then more: every segmentation with at most maxcuts cuts."""
    data = "".join(good).encode() + bad.encode("latin-1") + after.encode("latin-1")
    frames, err = ref(data)
    if err == "skip":
        return
    if err is None:
        return

    async def main(env):
        for k in range(maxcuts + 1):
            for j, pts in enumerate(itertools.combinations(range(1, len(data)), k)):
                if k >= 2 and j % step:
                    continue
                chunks = cut_at(data, pts)
                await judge(env, chunks, frames, err)
                rep.count(states=1, transitions=len(chunks), traces=1)

    run_judge(main)


def client_level(rep, good, bad, cuts, nread_before, chooser=None):
    """Through a client: the connection is closed, the good frames are still readable, nothing else."""
    data = "".join(good).encode() + bad.encode("latin-1")
    frames, err = ref(data)
    segs = cut_at(data, cuts)
    got = []

    async def main():
        c, _ = await started(env)
        tr = env.transport
        env.exploring = True
        env.preempt = True
        env.send(*segs)
        env.send(SENTINEL)  # whatever the gateway says afterwards

        async def read(n):
            for _ in range(n):
                got.append(str(await c.read_message(timeout=30)))

        await read(nread_before)
        env.exploring = False
        await drain(env)
        await read(len(frames) - nread_before)
        same(got, frames, "messages read before the malformed data")
        try:
            extra = str(await c.read_message(timeout=1))
        except TimeoutError:
            extra = None
        same(extra, None, "message read after the malformed data")
        if not tr.closing or not tr.conn_lost_called:
            raise Violation("the connection is still open after malformed data")
        if tr.error is None or kind(tr.error) not in err:
            raise Violation(f"the reception failed with {tr.error!r} instead of {err}")

    env = Env(chooser)
    k, v = env.run(main())
    if k == "raised":
        if isinstance(v, TimeoutError):
            raise Violation(f"messages lost: read {got} of {frames}, segments {segs}")
        raise v
    if k == "stuck":
        raise Violation(f"never ends ({v}): read {got} of {frames}, segments {segs}")


def real_socket(rep, good, bad):
    """Conformance with a real connection: the good frames arrive, then the peer sees the close."""
    data = "".join(good).encode() + bad.encode("latin-1")
    frames, err = ref(data)

    async def main():
        closed = asyncio.Event()

        async def serve(r, w):
            w.write(b"*#*1##")
            await r.readuntil(b"##")
            w.write(b"*#*1##")
            await r.readuntil(b"##")
            w.write(data)
            try:
                await w.drain()
                await r.read()
            except ConnectionError:
                pass
            closed.set()
            w.close()

        srv = await asyncio.start_server(serve, "127.0.0.1", 0)
        port = srv.sockets[0].getsockname()[1]
        c = Client("127.0.0.1", port, "12345", SessionType.CommandSession)
        await c.start()
        await c.send_message(parse_message("*1*1*11##"))
        got = [str(await c.read_message(timeout=10)) for _ in frames]
        same(got, frames, "messages read through a real connection")
        await asyncio.wait_for(closed.wait(), 20)
        srv.close()

    try:
        asyncio.run(main())
    except TimeoutError:
        raise Violation("the frames before the malformed data were lost, or the connection was not closed")
    rep.count(states=1, transitions=len(frames) + 1, traces=1)


def run(rep, tier):
    thorough = tier == "thorough"
    jobs = []
    full = "*#1 a\xff"
    n = 6 if thorough else 5
    for length in range(1, n + 1):
        parts = 1 if length < 4 else 16
        for p in range(parts):
            jobs.append(lambda r, a=("", full, length, "", p, parts): r.call(strings, *a, limit=600))
    m = 4 if thorough else 3
    for head in ("*#*1##", "*1*1*12##*#*1##", "*1*1", "*1*1*2#", "*#*1##\n*"):
        for tail in ("", "##", "##*#*1##", "*1##", "#"):
            for length in range(0, m + 1):
                jobs.append(
                    lambda r, a=(head, full + "\n-", length, tail, 0, 1): r.call(strings, *a, limit=600)
                )
    for good in ([], [ACK], FRAMES[2:5]):
        for bad in BAD:
            for after in ("", "*#*1##", "##*1*1*1##", "\xff"):
                size = len("".join(good)) + len(bad) + len(after)
                cuts = 2 if size < (120 if thorough else 45) else (1 if size < 1500 else 0)
                jobs.append(
                    lambda r, a=(good, bad.decode("latin-1"), after, cuts, 1 if thorough else 3): r.call(
                        bad_after, *a, limit=300
                    )
                )
    # every single byte value as garbage, alone and inside a frame
    for b in range(256):
        ch = bytes([b])
        if ch not in b"0123456789#* \t\r\n":
            for bad in (ch, b"*1*" + ch + b"*1##", b"*1*1*1" + ch + b"##", ch + b"*1*1*1##"):
                jobs.append(
                    lambda r, a=([ACK, "*1*1*12##"], bad.decode("latin-1"), "", 1, 1): r.call(bad_after, *a)
                )
    # blanks are allowed only between the frames: at every inner position they are malformed
    for f in ("*1*1*12##", "*#13**0*01*02##", "*#*1##", "*#1*0115#4#01*1##", "*99*9##"):
        for b in (" ", "\t", "\r", "\n", "\r\n", "\n\n", "  ", "\n\r\n"):
            for i in range(1, len(f)):
                for good, after in (([], ""), (["*1*1*12##"], "*#*1##")):
                    jobs.append(lambda r, a=(good, f[:i] + b + f[i:], after, 1, 1): r.call(bad_after, *a))
    # many good frames before
    for k in (50, 500):
        good = [FRAMES[i % len(FRAMES)] for i in range(k)]
        for bad in BAD[:16]:
            jobs.append(lambda r, a=(good, bad.decode("latin-1"), "", 0 if k > 50 else 1, 1): r.call(bad_after, *a, limit=200))
    rep.parallel(jobs)
    sched = []
    for good in ([], [ACK, "*1*1*12##"]):
        for bad in BAD[:20] if thorough else BAD[:18:3]:
            text = bad.decode("latin-1")
            size = len("".join(good)) + len(bad)
            h = len("".join(good))
            for cuts in ([], [h] if h else [], [h + 1], [h - 1] if h > 1 else [1], [2, h + 1] if h > 1 else [1]):
                cuts = sorted({c for c in cuts if 0 < c < size})
                for nread in range(len(good) + 1):
                    sched.append((good, text, cuts, nread))
    explore_all(rep, client_level, sched, bound=2)
    rep.each(
        real_socket,
        [(g, b.decode("latin-1")) for g in ([ACK], FRAMES[:6]) for b in BAD[:16]],
    )
    rep.sample({"alphabet": full, "length": n, "segmentations": "all"})
    rep.sample({"good": ["*1*1*12##", ACK], "bad": "*1*a*2##", "segmentations": "all with <= 2 cuts"})
    rep.cover("client_schedules", len(sched))
