"""C29: long use accumulates nothing.

A cycle is a sequence of 1 or 2 (3) activities: commands with every outcome, reads, pauses, events, ends and
restarts.  Every cycle is repeated hundreds of times on the same clients; after each repetition the system is
left idle, and the tasks, the timers, the open connections and the memory must not grow with the repetitions.
"""
import asyncio
import gc
import itertools
import sys
import tracemalloc

from . import cbs
from .core import CheckError, Violation, same
from .openalg import answer
from .util import *  # noqa: F401,F403
from .util import ACK, NACK
from .vloop import Env
from pyown.exceptions import InvalidAuthentication, InvalidSession, InvalidTag, ResponseError
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.energy.stop_go import StopGo
from pyown.items.gateway import Gateway
from pyown.items.lighting import Dimmer, Light
from pyown.messages import NormalMessage
from pyown.tags import What, Where, Who

ASSUMPTIONS = [
    "items are kept, one per address: the cycles use a fixed set of addresses",
    "callbacks that never finish and registrations are kept: the cycles have none",
    "memory that grows by less than 5 bytes per repetition, or stops growing after a thousand repetitions, is not judged",
]

EV = {
    "event": ["*1*1*12##", "*2*1*77##"],
    "event_energy": ["*#18*51*113*1234##", "*#13**0*21*10*05*001##"],
    "event_unknown": ["*77*1*2##", "*4*1*2##", ACK, "*#603356072##"],
    "event_invalid": ["*2*7*12##", "*#18*99*113*1##", "*#1*12*1*150##"],
}


class World:
    """A command client and an event client with its loop."""

    def __init__(self, env):
        self.env = env
        self.reply = [ACK]
        self.mode = {}  # what the next gateways do with the handshake
        self.raising = False
        self.calls = 0
        self.turn = 1000
        env.on_connected = self.on_connected
        env.on_frame_of = self.on_frame

    def on_connected(self, tr):
        tr.step = 0
        tr.how = self.mode.get("how", "plain")

    def on_frame(self, tr, f):
        tr.step += 1
        env = self.env
        if tr.step == 1:
            tr.session = f
            if tr.how == "plain":
                tr.step = 2
                env.send(ACK, tr=tr)
            elif tr.how == "open":
                env.send("*#603356072##", tr=tr)
            elif tr.how == "refuse":
                env.send(NACK, tr=tr)
            elif tr.how == "hmac":
                env.send("*98*1##", tr=tr)
            return
        if tr.step == 2:
            if tr.how == "open":
                same(f, f"*#{answer('12345', '603356072')}##", "OPEN answer")
                env.send(ACK, tr=tr)
            elif tr.how == "hmac":
                env.send("*#0102##", tr=tr)
            return
        if tr.how == "hmac":
            env.send(NACK, tr=tr)  # the proof is refused
            return
        env.send(*self.reply, tr=tr)

    async def begin(self):
        self.cmd = make_client(self.env, SessionType.CommandSession)
        await self.cmd.start()
        self.ctr = self.env.transport
        self.ev = make_client(self.env, SessionType.EventSession)
        await self.start_events()

    async def start_events(self):
        await self.ev.start()
        self.etr = self.env.transport
        self.task = asyncio.ensure_future(self.ev.loop(client=self.cmd))
        await settle(3)

    async def start_cmd(self):
        await self.cmd.start()
        self.ctr = self.env.transport

    async def idle(self):
        while any(t.segments and not t.lost for t in self.env.transports):
            await asyncio.sleep(0.01)
        await settle(20)

    async def events(self, frames):
        self.env.send(*frames, tr=self.etr)
        await self.idle()


async def quietly(coro, *errors):
    try:
        return await coro
    except errors:
        return None


async def lst(gen):
    return [x async for x in gen]


async def a_on(w):
    w.reply = [ACK]
    await Light(w.cmd, "11").turn_on()


async def a_nack(w):
    w.reply = [NACK]
    await quietly(Dimmer(w.cmd, "11").set_hsv(1, 2, 3), ResponseError)


async def a_unexpected(w):
    w.reply = ["*1*1*11##", ACK]
    await quietly(Camera(w.cmd, "4000").zoom_in(), ResponseError)


async def a_status(w):
    w.reply = ["*1*1*11##*1*0*12##", ACK]
    same(len(await lst(Light(w.cmd, "0").get_status())), 2, "answers")


async def a_status_part(w):
    w.reply = ["*1*1*11##*1*0*12##", ACK]
    async for _ in Light(w.cmd, "0").get_status():
        break


async def a_status_bad(w):
    w.reply = ["*1*1*11##", "*#1*11*1*150*20##", ACK]
    await quietly(lst(Automation(w.cmd, "11").get_status()), ResponseError)


async def a_dimension(w):
    w.reply = ["*#18*51*113*7##", ACK]
    await EnergyManagement(w.cmd, "51").get_active_power()


async def a_writing(w):
    import datetime

    w.reply = [ACK]
    await Gateway(w.cmd).set_date(datetime.date(2021, 12, 9))


async def a_nothing(w):
    w.reply = [ACK]
    await quietly(Gateway(w.cmd).get_firmware(), ResponseError)


async def a_stopgo(w):
    w.reply = ["*#18*11*250*0000000000001##", ACK]
    await StopGo(w.cmd, "11").request_status()


async def a_silent(w):
    w.reply = []
    await quietly(Light(w.cmd, "11").turn_off(), TimeoutError)


async def a_silent_request(w):
    w.reply = ["*1*1*11##"]
    await quietly(lst(Light(w.cmd, "0").get_status()), TimeoutError)


async def a_cancel(w):
    w.reply = []
    t = asyncio.ensure_future(Light(w.cmd, "11").turn_off())
    await settle(3)
    t.cancel()
    await asyncio.wait([t])


async def a_cancel_waiting(w):
    w.reply = []
    ts = [asyncio.ensure_future(quietly(Light(w.cmd, "11").turn_off(), TimeoutError)) for _ in range(3)]
    await settle(3)
    ts[1].cancel()
    await asyncio.wait(ts)


async def a_concurrent(w):
    w.reply = [ACK]
    await asyncio.gather(*(Light(w.cmd, str(k)).turn_on() for k in range(11, 15)))


async def a_read_timeout(w):
    await quietly(w.cmd.read_message(timeout=1), TimeoutError)


async def a_read_cancelled(w):
    t = asyncio.ensure_future(w.cmd.read_message(timeout=None))
    await settle(2)
    t.cancel()
    await asyncio.wait([t])


async def a_unread(w):
    w.env.send("*1*1*11##", "*1*0*11##", tr=w.ctr)
    await w.idle()
    w.reply = [ACK]
    await Light(w.cmd, "11").turn_on()  # what was unread is discarded


async def a_raw(w):
    w.reply = ["*1*1*11##", ACK]
    await w.cmd.send_message(NormalMessage((Who.LIGHTING, What("1"), Where("11"))))
    same(str(await w.cmd.read_message()), "*1*1*11##", "answer")
    same(str(await w.cmd.read_message()), ACK, "answer")


async def a_pause(w):
    w.reply = [ACK]
    w.ctr.protocol.pause_writing()
    t = asyncio.ensure_future(Light(w.cmd, "11").turn_on())
    await asyncio.sleep(1)
    w.ctr.protocol.resume_writing()
    await t


async def a_pause_cancel(w):
    w.reply = [ACK]
    w.ctr.protocol.pause_writing()
    t = asyncio.ensure_future(Light(w.cmd, "11").turn_on())
    await asyncio.sleep(1)
    t.cancel()
    await asyncio.wait([t])
    w.ctr.protocol.resume_writing()


def _events(frames):
    async def a(w):
        await w.events(frames)

    return a


async def a_event_varied(w):
    w.turn += 1
    await w.events([f"*#18*51*113*{w.turn}##", f"*1*0#{w.turn}*12##", f"*#13**16*{w.turn}*2*3##"])


async def a_request_varied(w):
    w.turn += 1
    w.reply = [f"*#18*51*113*{w.turn}##", ACK]
    await EnergyManagement(w.cmd, "51").get_active_power()
    w.reply = [ACK]
    await Dimmer(w.cmd, f"{w.turn}").turn_on()
    await w.cmd.send_message(NormalMessage((Who.LIGHTING, What(f"1#{w.turn}"), Where("11"))))


async def a_event_raising(w):
    w.raising = True
    await w.events(["*1*1*12##", "*2*1*77##"])
    w.raising = False


async def a_event_halves(w):
    w.env.send("*2*1", "*77##*2*", "0*77##", tr=w.etr)
    await w.idle()


async def a_items(w):
    for c in (w.cmd, w.ev):
        for who, where in (("1", "11"), ("2", "12"), ("18", "51"), ("13", "")):
            c.get_item(Who(who), Where(where), client=w.cmd)
        try:
            c.get_item(Who("4"), Where("1"), client=c)
        except KeyError:
            pass
        try:
            c.get_item(Who("18"), Where("999"), client=c)
        except InvalidTag:
            pass


async def a_varied_unsupported(w):
    w.turn += 1
    await w.events([f"*4*1*{w.turn}##", f"*#18*9{w.turn}*113*1##", f"*#4*{w.turn}*0*1##"])
    for who, where in (("4", f"{w.turn}"), ("18", f"9{w.turn}")):
        try:
            w.ev.get_item(Who(who), Where(where), client=w.cmd)
        except (KeyError, InvalidTag):
            continue
        raise Violation(f"an item for {who}, {where}")


async def a_close_start(w):
    await w.cmd.close()
    await w.start_cmd()


async def a_restart(w):
    await w.start_cmd()


async def a_drop_start(w):
    w.env.send("*1*1*", tr=w.ctr)
    w.env.drop(tr=w.ctr)
    await w.idle()
    await w.start_cmd()


async def a_reset_start(w):
    w.env.drop(ConnectionResetError("peer"), tr=w.ctr)
    await w.idle()
    await w.start_cmd()


async def a_malformed_start(w):
    w.env.send("*1*1*11##hello##", tr=w.ctr)
    await w.idle()
    await w.start_cmd()


async def a_refused_start(w):
    w.mode["how"] = "refuse"
    await quietly(w.cmd.start(), InvalidAuthentication)
    w.mode["how"] = "plain"
    await w.start_cmd()


async def a_hmac_refused(w):
    w.mode["how"] = "hmac"
    await quietly(w.cmd.start(), InvalidAuthentication)
    w.mode["how"] = "plain"
    await w.start_cmd()


async def a_unreachable(w):
    w.env.connect_error = OSError("unreachable")
    await quietly(w.cmd.start(), TimeoutError)
    w.env.connect_error = None
    await w.start_cmd()


async def a_silent_start(w):
    w.mode["how"] = "silent"
    await quietly(w.cmd.start(), TimeoutError)
    w.mode["how"] = "plain"
    await w.start_cmd()


async def a_cancelled_start(w):
    w.mode["how"] = "silent"
    t = asyncio.ensure_future(w.cmd.start())
    await asyncio.sleep(1)
    t.cancel()
    await asyncio.wait([t])
    w.mode["how"] = "plain"
    await w.start_cmd()


async def a_open_start(w):
    w.mode["how"] = "open"
    await w.start_cmd()
    w.mode["how"] = "plain"


async def _ended(w):
    await asyncio.wait([w.task], timeout=5)
    if not w.task.done():
        raise Violation("the loop still waits after the end of its connection")
    await quietly(_result(w.task), Exception)


async def _result(task):
    return task.result()


async def a_events_close(w):
    await w.ev.close()
    await _ended(w)
    await w.start_events()


async def a_events_drop(w):
    w.env.send("*2*1*77##", tr=w.etr)
    w.env.drop(tr=w.etr)
    await w.idle()
    await _ended(w)
    await w.start_events()


async def a_loop_cancelled(w):
    w.task.cancel()
    await asyncio.wait([w.task])
    w.task = asyncio.ensure_future(w.ev.loop(client=w.cmd))
    await settle(3)


async def a_refused_use(w):
    await quietly(w.cmd.loop(), InvalidSession)
    await quietly(Light(w.ev, "11").turn_on(), InvalidSession)


async def a_new_client(w):
    c = make_client(w.env, SessionType.CommandSession)
    await c.start()
    w.reply = [ACK]
    await c.get_item(Who.LIGHTING, Where("11"), client=c).turn_on()
    await c.close()


async def a_reaction(w):
    w.reply = [ACK]
    w.react = True
    await w.events(["*1*0*12##"])
    w.react = False


USES = ["on", "status_part", "cancel_waiting", "pause_cancel", "unread", "event"]
ACTS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("a_")}
ACTS.update({k: _events(v) for k, v in EV.items()})


def cycle(rep, names, rounds):
    """A suspicious growth is confirmed with 3 and 12 times as many repetitions: what does not scale is no growth."""
    for factor in (1, 3, 12):
        grown = repeat(rep, names, rounds * factor)
        if min(grown) <= 5 * rounds * factor:
            rep.coverage["confirmations"] = rep.coverage.get("confirmations", 0) + (factor > 1)
            return
    raise Violation(f"memory: {grown} bytes more after {factor * rounds}, {2 * factor * rounds} and {3 * factor * rounds} times {names}")


def repeat(rep, names, rounds):
    env = Env(horizon=1e12, max_iterations=10**9)
    w = World(env)
    w.react = False

    async def handler(name, item, args):
        w.calls += 1
        if w.raising:
            raise ValueError("boom")
        if w.react and name == "light_status.light":
            await item.turn_on()

    def connections():
        return sum(1 for t in env.transports if not t.lost)

    async def main():
        await w.begin()
        loop = asyncio.get_running_loop()
        marks = []
        for r in range(rounds * 3 + 1):
            if r % rounds == 0:
                await asyncio.sleep(200)  # everything that ends by itself has ended
                await settle(30)
                env.log.clear(), env.written.clear(), env.frames.clear(), env.loop_errors.clear()
                # the allocator's own tables settle as well
                gc.collect()
                gc.collect()
                tasks = len(asyncio.all_tasks())
                timers = sum(1 for h in loop._scheduled if not h._cancelled)
                marks.append((tasks, timers, connections(), tracemalloc.get_traced_memory()[0]))
                if r == rounds * 3:
                    break
            for n in names:
                await ACTS[n](w)
                await w.idle()
            env.log.clear(), env.written.clear(), env.frames.clear(), env.loop_errors.clear()
            env.transports[:] = [t for t in env.transports if not t.conn_lost_called]
        base, one, two, three = marks
        for k, what in ((0, "tasks"), (1, "timers"), (2, "open connections")):
            if three[k] > base[k]:
                raise Violation(f"{what}: {base[k]} before, {three[k]} after {3 * rounds} times {names}, when everything is idle")
        return [one[3] - base[3], two[3] - one[3], three[3] - two[3]]

    cbs.use(handler)
    tracemalloc.start()
    try:
        k, v = env.run(main())
    finally:
        cbs.use(None)
        tracemalloc.stop()
    if k == "raised":
        raise v if isinstance(v, Violation) else Violation(f"{type(v).__name__}: {v}; {names}")
    if k == "stuck":
        raise Violation(f"stuck: {v}; {names}")
    rep.count(states=3 * rounds * len(names), transitions=3 * rounds * len(names), traces=1)
    rep.cover("cycles")
    return v


def run(rep, tier):
    thorough = tier == "thorough"
    names = list(ACTS)

    def gen():
        for a in names:
            yield [a], 300 if thorough else 100
        starts = [n for n in names if "start" in n or n in ("events_close", "events_drop", "loop_cancelled", "hmac_refused", "unreachable")]
        for a, b in itertools.permutations(names, 2):
            if thorough or (a in starts and b in USES) or (b in starts and a in USES):
                yield [a, b], 100
        if thorough:
            for a, b in itertools.permutations(USES, 2):
                for s in starts:
                    yield [a, b, s], 100

    rep.parallel_each(cycle, gen, limit=600)
    rep.sample({"cycle": ["drop_start", "event"], "times": 450})
