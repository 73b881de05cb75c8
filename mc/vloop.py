"""Virtual asyncio: a real BaseEventLoop whose selector, clock and sockets belong to the explorer.

The scheduling of callbacks is asyncio's own code (FIFO ready queue, timer heap); only what a real
program cannot control is a decision of the explorer: at every iteration of the loop (every call of
selector.select) which pending environment events (a data segment, the loss of the connection, a
pause/resume of the writing, a user action) are delivered, or whether the time advances to the next
timer.  Therefore every explored execution is one that the real event loop can produce.
"""
import asyncio
import asyncio.base_events
import asyncio.events

from .core import CheckError
from .explore import Chooser


class Event:
    """An environment event; fn is run by the loop like a ready file descriptor's callback."""

    __slots__ = ("label", "fn")

    def __init__(self, label, fn):
        self.label = label
        self.fn = fn


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        return self.loop.env.on_select(timeout)

    def close(self):
        pass

    def get_map(self):
        return {}


class VLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, env):
        super().__init__()
        self.env = env
        self._vtime = 1000.0
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)

    def time(self):
        return self._vtime

    def _process_events(self, event_list):
        for h in event_list:
            self._ready.append(h)

    def _write_to_self(self):
        pass

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        return await self.env.connect(protocol_factory, host, port)

    async def getaddrinfo(self, host, port, **kw):
        raise OSError("no name resolution here")


class VTransport(asyncio.Transport):
    """What asyncio's _SelectorSocketTransport does, without a socket."""

    def __init__(self, env, loop, protocol):
        super().__init__()
        self.env = env
        self.loop = loop
        self.protocol = protocol
        self.closing = False
        self.lost = 0
        self.conn_lost_called = False
        self.paused_writing = False
        self.buffer_size = 0
        self.error = None
        self.reading = True
        self.segments = []  # what the gateway sends on this connection, delivered in order
        self.wbuf = b""
        self.room = None  # writes the peer does not read are kept; more than this many pause the writing
        self.held = []

    def deliver(self):
        """The environment delivers the next segment."""
        if not self.segments:
            return
        kind, arg = self.segments.pop(0)
        self.env.log.append((kind, self.env.now, arg))
        if kind == "data":
            self.feed(arg)
        elif kind == "eof":
            self.feed_eof()
        else:
            self.feed_error(arg)

    # -- reading side (called by the environment) ---------------------------------------------------
    def feed(self, data):
        if self.lost or self.closing:
            return
        try:
            if isinstance(self.protocol, asyncio.BufferedProtocol):
                view = memoryview(data)
                while view:
                    buf = self.protocol.get_buffer(len(view))
                    n = min(len(buf), len(view))
                    buf[:n] = view[:n]
                    self.protocol.buffer_updated(n)
                    view = view[n:]
            else:
                self.protocol.data_received(data)
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException as exc:
            self._fatal_error(exc, "Fatal error: protocol.data_received() call failed.")

    def feed_eof(self):
        if self.lost or self.closing:
            return
        try:
            keep_open = self.protocol.eof_received()
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException as exc:
            self._fatal_error(exc, "Fatal error: protocol.eof_received() call failed.")
            return
        if not keep_open:
            self.close()

    def feed_error(self, exc):
        if self.lost:
            return
        self._force_close(exc)

    # -- asyncio.Transport ------------------------------------------------------------------------
    def get_extra_info(self, name, default=None):
        return {"peername": ("127.0.0.1", 20000), "sockname": ("127.0.0.1", 50000)}.get(
            name, default
        )

    def is_closing(self):
        return self.closing

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    def is_reading(self):
        return self.reading and not self.closing

    def pause_reading(self):
        self.reading = False

    def resume_reading(self):
        self.reading = True

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return self.buffer_size

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.env.on_write_eof(self)

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(f"data argument must be a bytes-like object, not {type(data).__name__!r}")
        if not data:
            return
        if self.lost:
            self.lost += 1
            return
        if self.room is not None:
            self.held.append(bytes(data))
            if len(self.held) > self.room and not self.paused_writing:
                self.paused_writing = True
                self.protocol.pause_writing()
            return
        self.env.on_write(self, bytes(data))

    def flush(self):
        """The peer reads again."""
        self.room = None
        if self.lost:
            return
        held, self.held = self.held, []
        for d in held:
            self.env.on_write(self, d)
        if self.paused_writing:
            self.paused_writing = False
            self.protocol.resume_writing()
        if self.closing:
            self.lost += 1
            self._call_connection_lost(None)

    def writelines(self, list_of_data):
        self.write(b"".join(list_of_data))

    def close(self):
        if self.closing:
            return
        self.closing = True
        if not self.held:
            self.lost += 1
            self.loop.call_soon(self._call_connection_lost, None)

    def abort(self):
        self._force_close(None)

    def _fatal_error(self, exc, message):
        self.error = exc
        self.loop.call_exception_handler(
            {"message": message, "exception": exc, "transport": self, "protocol": self.protocol}
        )
        self._force_close(exc)

    def _force_close(self, exc):
        if self.lost:
            return
        self.held = []
        self.closing = True
        self.lost += 1
        self.loop.call_soon(self._call_connection_lost, exc)

    def _call_connection_lost(self, exc):
        self.conn_lost_called = True
        self.env.on_disconnected(self)
        self.protocol.connection_lost(exc)


class Env:
    """The environment of one execution: the pending events and the decisions about them.

    Subclass or configure: on_frame(transport, frame) is called with each frame the client writes.
    """

    def __init__(self, chooser=None, horizon=60.0, max_iterations=20000):
        self.chooser = chooser or Chooser()
        self.exploring = False
        self.start_time = 1000.0
        self.horizon = horizon
        self.max_iterations = max_iterations
        self.loop = VLoop(self)
        self.iterations = 0
        self.actions = []  # user/environment events, enabled in any order
        self._early = []
        self.timed = []  # (time, Event): happen by themselves when the time comes
        self.transport = None
        self.transports = []
        self.connect_error = None
        self.connecting = None
        self.written = []  # (time, bytes) as written by the client
        self.frames = []  # complete frames written by the client
        self.on_frame = None
        self.on_frame_of = None  # the same, with the transport
        self.on_raw_write = None
        self.on_connected = None
        self.greeting = [b"*#*1##"]
        self.stuck = None
        self.disconnected = 0
        self.loop_errors = []
        self.log = []
        self.allow_tick_with_events = False  # also explore timers firing before pending events
        self.merge_tick = False  # also explore a timer and an event in the same iteration
        self.preempt = False  # also explore events delivered while the loop still has ready callbacks

    # -- time ---------------------------------------------------------------------------------------
    @property
    def now(self):
        return round(self.loop._vtime - self.start_time, 6)

    @property
    def segments(self):
        """What the (last) gateway has still to deliver."""
        return self._early if self.transport is None else self.transport.segments

    @segments.setter
    def segments(self, value):
        self._early = value
        for tr in self.transports:
            tr.segments = list(value)

    @property
    def wbuf(self):
        """The unfinished frames written by the clients."""
        return b"".join(tr.wbuf for tr in self.transports)

    # -- connection ---------------------------------------------------------------------------------
    async def connect(self, factory, host, port):
        self.log.append(("connect", host, port))
        if self.connect_error is not None:
            raise self.connect_error
        if self.connecting is not None:
            # the connection takes as long as the check wants
            await self.connecting
        loop = self.loop
        protocol = factory()
        waiter = loop.create_future()
        tr = VTransport(self, loop, protocol)
        loop.call_soon(protocol.connection_made, tr)
        loop.call_soon(self._connected, tr)
        loop.call_soon(lambda: waiter.done() or waiter.set_result(None))
        await waiter
        return tr, protocol

    def _connected(self, tr):
        self.transport = tr
        self.transports.append(tr)
        tr.segments, self._early = self._early, []
        for seg in self.greeting:
            self.send(seg)
        if self.on_connected is not None:
            self.on_connected(tr)

    def send(self, *segs, tr=None):
        for s in segs:
            (tr or self).segments.append(("data", s.encode() if isinstance(s, str) else s))

    def drop(self, exc=None, tr=None):
        (tr or self).segments.append(("eof", None) if exc is None else ("error", exc))

    def on_write(self, tr, data):
        self.written.append((self.now, data))
        self.log.append(("write", self.now, data))
        if self.on_raw_write is not None:
            self.on_raw_write(tr, data)
        tr.wbuf += data
        while b"##" in tr.wbuf:
            f, tr.wbuf = tr.wbuf.split(b"##", 1)
            frame = (f + b"##").decode("latin-1")
            self.frames.append(frame)
            if self.on_frame_of is not None:
                self.on_frame_of(tr, frame)
            if self.on_frame is not None:
                self.on_frame(frame)

    def on_write_eof(self, tr):
        self.log.append(("write_eof", self.now))

    def on_disconnected(self, tr):
        self.disconnected += 1
        self.log.append(("disconnected", self.now))

    # -- decisions ------------------------------------------------------------------------------------
    def at(self, when, label, fn):
        """An event that happens by itself at a virtual time."""
        self.timed.append((self.start_time + when, Event(label, fn)))
        self.timed.sort(key=lambda x: x[0])

    def enabled(self):
        out = [Event(tr.segments[0], tr.deliver) for tr in self.transports if tr.segments and not tr.lost and tr.reading]
        for a in self.actions:
            out.append(Event(a.label, self._act(a)))
        return out

    def _act(self, a):
        def run():
            if a in self.actions:
                self.actions.remove(a)
                self.log.append(("action", self.now, a.label))
                a.fn()

        return run

    def _handle(self, ev):
        return asyncio.events.Handle(ev.fn, (), self.loop, None)

    def _advance(self, to):
        if to > self.loop._vtime:
            self.loop._vtime = to

    def on_select(self, timeout):
        self.iterations += 1
        loop = self.loop
        if self.iterations > self.max_iterations:
            self.stuck = "livelock"
            loop.stop()
            return []
        if loop._stopping:
            return []
        out = []
        taken = []
        if timeout == 0:
            # callbacks are ready: an event delivered now is a preemption
            if self.exploring and self.preempt:
                while True:
                    en = [e for e in self.enabled_after(taken)]
                    if not en:
                        break
                    i = self.chooser.choose([0] + [1] * len(en))
                    if i == 0:
                        break
                    taken.append(en[i - 1])
                    out.append(self._handle(en[i - 1]))
            return out

        timer = None if timeout is None else loop._vtime + timeout
        due = self.timed[0][0] if self.timed else None
        en = self.enabled()
        if due is not None and (timer is None or due <= timer) and not en:
            self._advance(due)
            ev = self.timed.pop(0)[1]
            self.log.append(("timed", self.now, ev.label))
            return [self._handle(ev)]
        options = [("event", e) for e in en]
        end = self.start_time + self.horizon
        if timer is not None and timer <= end:
            if not en or (self.exploring and self.allow_tick_with_events):
                options.append(("tick", None))
                if self.exploring and self.merge_tick:
                    for e in en:
                        options.append(("tick+event", e))
        if not options:
            self.stuck = "horizon" if timer is not None else "deadlock"
            loop.stop()
            return []
        if self.exploring and len(options) > 1:
            k = self.chooser.choose([0] * len(options))
        else:
            k = 0
        kind, ev = options[k]
        if kind == "event":
            out.append(self._handle(ev))
            taken.append(ev)
        elif kind == "tick":
            if due is not None and due < timer:
                self._advance(due)
                e2 = self.timed.pop(0)[1]
                out.append(self._handle(e2))
            else:
                self._advance(timer)
        else:
            self._advance(timer)
            out.append(self._handle(ev))
            taken.append(ev)
        if self.exploring and self.preempt and taken:
            while True:
                en = self.enabled_after(taken)
                if not en:
                    break
                i = self.chooser.choose([0] + [1] * len(en))
                if i == 0:
                    break
                taken.append(en[i - 1])
                out.append(self._handle(en[i - 1]))
        return out

    def enabled_after(self, taken):
        """Events still enabled in this iteration once `taken` have been scheduled."""
        labels = [e.label for e in taken]
        fns = [e.fn for e in taken]
        out = [
            Event(tr.segments[0], tr.deliver)
            for tr in self.transports
            if tr.segments and not tr.lost and tr.reading and tr.deliver not in fns
        ]
        # one read per iteration, as a selector loop does; actions may come together
        for a in self.actions:
            if a.label not in labels:
                out.append(Event(a.label, self._act(a)))
        return out

    # -- running --------------------------------------------------------------------------------------
    def run(self, coro):
        """Run the main coroutine; returns ("done", value), ("raised", exc) or ("stuck", why)."""
        loop = self.loop
        asyncio.events.set_event_loop(None)
        try:
            task = loop.create_task(coro)
            task.add_done_callback(lambda _: loop.stop())
            loop.run_forever()
            if self.stuck:
                self.stuck_task = task
                return ("stuck", self.stuck)
            if task.cancelled():
                return ("raised", asyncio.CancelledError())
            exc = task.exception()
            if exc is not None:
                return ("raised", exc)
            return ("done", task.result())
        finally:
            self.cleanup()

    def cleanup(self):
        loop = self.loop
        try:
            self.exploring = False
            self.actions = []
            self.segments = []
            self.timed = []
            self.horizon = 0
            self.greeting = []
            self.on_frame = None
            self.on_frame_of = None
            self.on_connected = None
            self.on_raw_write = None
            loop.set_exception_handler(lambda *a: None)
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            if pending or loop._ready:
                self.max_iterations = self.iterations + 200
                self.stuck = None
                for _ in range(5):
                    loop.call_soon(loop.stop)
                    loop.run_forever()
                    if not [t for t in pending if not t.done()]:
                        break
            for t in pending:
                t._log_destroy_pending = False
                if t.done() and not t.cancelled():
                    t.exception()
        finally:
            loop._ready.clear()
            loop._scheduled.clear()
            loop.close()


def run_simple(coro_fn, env=None, **kw):
    """Run coro_fn(env) to the end in a deterministic environment, propagating its exception."""
    env = env or Env(**kw)
    kind, val = env.run(coro_fn(env))
    if kind == "raised":
        raise val
    if kind == "stuck":
        from .core import Violation

        raise Violation(f"the execution never ends ({val}); environment log: {env.log[-8:]}")
    return val


__all__ = ["Env", "Event", "VLoop", "VTransport", "run_simple", "CheckError"]
