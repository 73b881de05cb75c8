"""Helpers shared by the checks (clients on the virtual loop, frame pools)."""
import asyncio
import contextlib
import os
import time

from .core import Violation
from .vloop import Env

from pyown.client import Client, SessionType
from pyown.messages import parse_message
from pyown.protocol import OWNProtocol

# local zones of the program: east and west of Greenwich, of half hours, with a summer time
ZONES = ["XXX-5", "XXX+9:30", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX+11YYY,M10.1.0,M4.1.0/3"]


@contextlib.contextmanager
def local_zone(zone):
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


ACK = "*#*1##"
NACK = "*#*0##"
SENTINEL = "*99*24680##"

WHO_CODES = [
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
    "1001", "1004", "1013", "1018",
]  # fmt: skip

# one or more frames of every documented kind
FRAMES = [
    "*#*1##",
    "*#*0##",
    "*1*1*12##",
    "*1*0*0115#4#01##",
    "*2*1000#2*34##",
    "*1*11#255*#3##",
    "*#1*12##",
    "*#2*0##",
    "*#13**0##",
    "*#18*51*57##",
    "*#18*71#0*72#1##",
    "*#1*12*#1*150*20##",
    "*#13**#0*21*10*00*01##",
    "*#13**22*12*30*01*001*04*09*12*2021##",
    "*#18*51*113*1234##",
    "*#18*71#0*72#2*4500*01*02*2021*03*04##",
    "*#18*51*511#4#9*25*65535##",
    "*99*1##",
    "*98*2##",
    "*#603356072##",
    "*7*301##",
    "*77*1*2##",
]


def new_protocol(loop):
    start = loop.create_future()
    end = loop.create_future()
    return OWNProtocol(start, end), start, end


def outcome(kind, val):
    if kind == "raised":
        return f"raised {type(val).__name__}: {val}"
    return f"{kind} {val!r}"


def make_client(env, session=None, password="12345", loop=None):
    """A client (to be called from within the running virtual loop)."""
    if session is None:
        session = SessionType.CommandSession
    return Client("192.168.1.35", 20000, password, session)


class Script:
    """A gateway without authentication; afterwards every frame goes to `answer(frame) -> iterable`."""

    def __init__(self, env, answer=None):
        self.env = env
        self.state = 0
        self.frames = []
        self.answer = answer
        env.on_frame = self.on_frame

    def on_frame(self, frame):
        if self.state == 0:
            self.state = 1
            self.env.send(ACK)
            return
        self.frames.append(frame)
        if self.answer is not None:
            for seg in self.answer(frame):
                self.env.send(seg)


async def started(env, session=None, answer=None, password="12345"):
    """A started client with a Script gateway."""
    s = Script(env, answer)
    c = make_client(env, session, password)
    await c.start()
    env.frames.clear()
    env.written.clear()
    return c, s


async def must(coro, what, limit=100.0):
    """Await under a (virtual) time limit; not finishing is a violation."""
    try:
        async with asyncio.timeout(limit) as t:
            return await coro
    except TimeoutError:
        if t.expired():
            raise Violation(f"{what}: still waiting after {limit} virtual seconds")
        raise


async def drain(env):
    """Let the environment deliver everything it has to deliver."""
    while env.segments and not env.transport.lost:
        await asyncio.sleep(1e-6)
    await settle()


async def settle(n=8):
    """Let every ready callback run."""
    for _ in range(n):
        await asyncio.sleep(0)


__all__ = [n for n in dir() if not n.startswith("_")]
