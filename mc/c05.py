"""C05: a received frame is accepted or rejected promptly, whatever its content."""
import itertools
import signal
import time

from .core import Hang, Violation
from .util import *  # noqa: F401,F403
from .vloop import run_simple
from pyown.exceptions import ParseError
from pyown.messages import parse_message

ASSUMPTIONS = [
    "the time limit is one second of processor time for a frame of 2000 characters (a linear or quadratic "
    "matcher needs less than 50 ms)",
]

LIMIT = 1.0
SIZE = 2000

PREFIXES = ["", "*", "*#", "*1*", "*#1*", "*1*1*", "*#1*1*", "*#1*1*#", "*#1*1*1", "*#1*1*1*", "*#1*1*#1*", "*#1*1*1#",
            "*1*1", "*1*1#", "*1*1*1#", "*#1*1#", "*#1*1*1*1*", "*#13**", "1", "a"]  # fmt: skip
SUFFIXES = ["##", "#", "x##", "*##", "1##", "x", "", "*x##", "#x##", "##x", "# ##", "\n##"]


def timed(s, where):
    """Process one string under the processor-time limit; the result does not matter here."""
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    t = time.process_time()
    try:
        where(s)
    except Hang:
        raise Violation(f"processing takes more than {LIMIT} s of processor time: {describe(s)}")
    except (ParseError, UnicodeDecodeError):
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return time.process_time() - t


def describe(s):
    return f"{len(s)} characters, {s[:60]!r}...{s[-20:]!r}"


def pump(p, n):
    return (p * (n // len(p) + 1))[:n] if p else ""


def pumped(rep, prefix, pumps, suffixes):
    """prefix + pump^n + suffix for every pump and suffix."""
    k = 0
    for p in pumps:
        for s in suffixes:
            n = SIZE - len(prefix) - len(s)
            n -= n % len(p)
            timed(prefix + pump(p, n) + s, parse_message)
            k += 1
    rep.count(states=k, transitions=k * SIZE, traces=k)


def two_pumps(rep, prefix, p1, pumps2, mids, suffixes):
    k = 0
    n = SIZE // 2
    for p2 in pumps2:
        for mid in mids:
            for s in suffixes:
                timed(prefix + pump(p1, n) + mid + pump(p2, n) + s, parse_message)
                k += 1
    rep.count(states=k, transitions=k * SIZE, traces=k)


def stream(rep, prefix, pumps, suffixes, size):
    """The same through the protocol, in segments of `size` bytes."""
    k = 0

    async def main(env):
        nonlocal k
        for p in pumps:
            for s in suffixes:
                data = (prefix + pump(p, SIZE) + s).encode()

                def feed(_):
                    proto, _, _ = new_protocol(env.loop)
                    for i in range(0, len(data), size):
                        proto.data_received(data[i : i + size])

                timed(data.decode(), feed)
                k += 1

    run_simple(main, max_iterations=10**9)
    rep.count(states=k, transitions=k * (SIZE // size + 1), traces=k)


def all_pumps(alphabet, upto):
    return ["".join(w) for n in range(1, upto + 1) for w in itertools.product(alphabet, repeat=n)]


def run(rep, tier):
    thorough = tier == "thorough"
    pumps = all_pumps("*#01", 4 if thorough else 3) + ["0123456789", "*#1*2", "#1#2*", "a", "*a", " ", "é"]
    prefixes = list(PREFIXES)
    if thorough:
        prefixes += ["*" + "".join(w) for n in (1, 2, 3) for w in itertools.product("*#1", repeat=n)]
    jobs = [lambda r, p=p: r.call(pumped, p, pumps, SUFFIXES, limit=None) for p in prefixes]
    small = all_pumps("*#1", 2)
    for p in prefixes if thorough else PREFIXES:
        for p1 in small:
            jobs.append(lambda r, a=(p, p1, small, ["", "*", "#", "*#"], ["##", "x##", "*x##", "#"]): r.call(two_pumps, *a))
    for p in ("*", "*#1*1*", "*1*", "*#1*1*#1*"):
        for size in (1, 3, 100, 5000):
            jobs.append(lambda r, a=(p, small + ["1*", "*1", "1#1"], ["##", "x##", "#"], size): r.call(stream, *a))

    # the watchdog of the case itself is in wall time only: `timed` uses the processor-time timer
    rep.case_limit = 10**6
    rep.parallel(jobs)
    rep.sample({"prefix": "*#1*1*", "pump": "1#", "repeated_up_to": SIZE, "suffix": "x##"})
    rep.cover("pumps", len(pumps))
    rep.cover("prefixes", len(prefixes))
    rep.cover("suffixes", len(SUFFIXES))
