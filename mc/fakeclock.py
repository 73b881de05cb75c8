"""Run energy commands with omitted dates under a controlled clock (a process of its own).

The clock functions of datetime and time are replaced before pyown is imported.  Every reading of the
clock is a scheduling point: the jobs say at which reading the clock passes from one instant to the next.
Input (stdin): JSON list of [method, args, kwargs, before, after, k]; the readings with number >= k see
`after`.  Output: JSON list of [frames, number of readings].
"""
import datetime as _dt
import json
import os
import sys
import time as _time

_real_dt, _real_date = _dt.datetime, _dt.date
_localtime, _gmtime, _strftime, _ctime, _asctime = _time.localtime, _time.gmtime, _time.strftime, _time.ctime, _time.asctime


class Clock:
    before = after = 0.0
    k = 0
    reads = 0

    @classmethod
    def now(cls):
        v = cls.after if cls.reads >= cls.k else cls.before
        cls.reads += 1
        return v


class FakeDateMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_date)


class FakeDatetimeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_dt)


class FakeDate(_real_date, metaclass=FakeDateMeta):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(Clock.now())


class FakeDatetime(_real_dt, metaclass=FakeDatetimeMeta):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(Clock.now(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(Clock.now())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(Clock.now(), _dt.timezone.utc).replace(tzinfo=None)


def install():
    _dt.datetime, _dt.date = FakeDatetime, FakeDate
    _time.time = Clock.now
    _time.time_ns = lambda: int(Clock.now() * 10**9)
    _time.localtime = lambda s=None: _localtime(Clock.now() if s is None else s)
    _time.gmtime = lambda s=None: _gmtime(Clock.now() if s is None else s)
    _time.strftime = lambda f, t=None: _strftime(f, _localtime(Clock.now()) if t is None else t)
    _time.ctime = lambda s=None: _ctime(Clock.now() if s is None else s)
    _time.asctime = lambda t=None: _asctime(_localtime(Clock.now()) if t is None else t)


def main():
    jobs = json.load(sys.stdin)
    _time.tzset()
    install()
    from . import core

    core.install()
    from .cmds import run_session
    from .util import ACK
    from pyown.items.energy import EnergyManagement

    out = []

    def answer(f):
        if f.startswith("*#18*"):
            return [f[:-2] + "*7##" + ACK]
        return [ACK]

    async def body(c, s):
        item = EnergyManagement(c, "51")
        for method, args, kwargs, before, after, k in jobs:
            s.frames.clear()
            Clock.before, Clock.after, Clock.k, Clock.reads = before, after, k, 0
            try:
                await getattr(item, method)(*args, **kwargs)
            except Exception as e:
                out.append([[f"raised {type(e).__name__}: {e}", *s.frames], Clock.reads])
                continue
            out.append([list(s.frames), Clock.reads])

    run_session(body, answer=answer)
    json.dump(out, sys.stdout)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
