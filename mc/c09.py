"""C09: start() succeeds only through a documented handshake and sends only its frames."""
import asyncio
import hashlib
import itertools
import socket

from .core import Violation, same
from .explore import explore_all
from .openalg import answer
from .util import *  # noqa: F401,F403
from .util import ACK, NACK
from .vloop import Env
from pyown.exceptions import InvalidAuthentication

ASSUMPTIONS = [
    "a challenge is well formed: `*#nonce##` with a digit other than 0, `*98*algorithm##`, keys as long as the digest; "
    "gateways that send challenges in other shapes, or frames before being asked, are not judged",
    "a connection dropped right after the last answer may end in success or TimeoutError",
]

A = "736F70653E"
B = "636F70653E"
BOUND = 60.0  # virtual seconds allowed to an unanswered handshake

FRAME = {
    "ack": ACK,
    "nack": NACK,
    "normal": "*1*1*11##",
    "status": "*#1*12##",
    "dimension": "*#13**0*10*20*30*001##",
    "writing": "*#13**#0*10*20*30*001##",
    "request": "*#13**0##",
    "session": "*99*0##",
    "alg1": "*98*1##",
    "alg2": "*98*2##",
    "alg0": "*98*0##",
    "alg3": "*98*3##",
    "alg11": "*98*11##",
    "alg01": "*98*01##",
    "algnone": "*98*##",
}
FAULTS = ["silence", "drop", "error", "garbage", "partial", "nonascii"]
GREETING = ["ack", "nack", "normal", "session", "alg1", "nonce0", "dimension", *FAULTS]
SESSION = [
    "ack", "nack", "normal", "status", "dimension", "writing", "request", "session",
    "alg1", "alg2", "alg0", "alg3", "alg11", "alg01", "algnone",
    "nonce0", "nonce1", "nonce2", "nonce3", "nonce4", "nonce5", "ack+drop", *FAULTS,
]  # fmt: skip
OPENED = ["ack", "nack", "normal", "session", "alg1", "nonce0", "dimension", "status", "ack+drop", *FAULTS]
KEY = ["key0", "key1", "key2", "key3", "badkey_odd", "badkey_16", "badkey_two", "ack", "nack", "normal", "alg1", "status", *FAULTS]
PROOF = [
    "proof", "bad_firstbit", "bad_lastbit", "bad_middle", "bad_swapped", "bad_password", "bad_echo", "bad_short", "bad_long",
    "bad_empty1", "bad_zero", "bad_alg", "bad_two", "bad_odd", "bad_16", "bad_prefix", "ack", "nack", "normal", "dimension", *FAULTS,
]  # fmt: skip

NONCES = ["603356072", "1", "0012", "987654321", "5550001117", "123456789012345"]


def enc(hexs):
    return "".join(f"{int(c, 16):02d}" for c in hexs)


def dec(digits):
    if len(digits) % 2:
        return None
    out = ""
    for i in range(0, len(digits), 2):
        v = int(digits[i : i + 2])
        if v > 15:
            return None
        out += f"{v:x}"
    return out


OTHER = ("abcde", "p4ss Wörd#*1")  # good for HMAC only


class Dialogue:
    """The gateway: at every step it picks one of the possible answers and knows what must follow."""

    def __init__(self, env, pick, session, password, split, delay):
        self.env = env
        self.pick = pick
        self.session = session
        self.password = password
        self.split = split
        self.delay = delay
        self.state = "greeting"
        self.expect_sent = []  # frames the client has to send, in order (a callable checks the HMAC one)
        self.expect_end = None  # "ok", "auth", "timeout" ...
        self.steps = []
        self.fault = None
        self.rb = None
        env.greeting = []
        env.on_frame = self.on_frame

    # -- sending --------------------------------------------------------------------------------------
    def put(self, data):
        if isinstance(data, str):
            data = data.encode("latin-1")
        if self.split == "bytes":
            segs = [data[i : i + 1] for i in range(len(data))]
        elif self.split == "half":
            segs = [data[: len(data) // 2], data[len(data) // 2 :]]
        elif self.split == "tail":
            segs = [data[:-1], data[-1:]]
        else:
            segs = [data]
        segs = [s for s in segs if s]
        if self.delay:
            self.env.at(self.env.now + self.delay, "delayed", lambda: self.env.send(*segs))
        else:
            self.env.send(*segs)

    def step(self, options):
        name = options[self.pick(len(options))]
        self.steps.append(name)
        if name in FAULTS:
            self.fault = name
            self.state = "fault"
            if name == "drop":
                self.env.drop()
            elif name == "error":
                self.env.drop(ConnectionResetError("peer"))
            elif name == "garbage":
                self.put("hello##")
            elif name == "nonascii":
                self.put("*#\xff##")
            elif name == "partial":
                self.put("*#*")
            self.expect_end = "timeout"
            if name in ("garbage", "nonascii"):
                self.expect_end = "timeout or auth"
            return None
        return name

    def connected(self):
        name = self.step(GREETING)
        if name is None:
            return
        self.put(self.frame(name))
        if name == "ack":
            self.expect_sent.append(f"*99*{self.session}##")
            self.state = "session"
        else:
            self.finish("auth")

    def frame(self, name):
        if name.startswith("nonce"):
            return f"*#{NONCES[int(name[5:])]}##"
        return FRAME[name]

    def finish(self, how):
        self.expect_end = how
        self.state = "over"

    def on_frame(self, frame):
        if self.state == "session":
            name = self.step(SESSION)
            if name is None:
                return
            if name == "ack+drop":
                self.put(ACK)
                self.drop_later()
                self.finish("ok or timeout")
                return
            self.put(self.frame(name))
            if name == "ack":
                self.finish("ok")
            elif name.startswith("nonce") and not self.password.isdigit():
                self.finish("auth")  # the OPEN algorithm is defined for numeric passwords
            elif name.startswith("nonce"):
                self.expect_sent.append("*#" + answer(self.password, NONCES[int(name[5:])]) + "##")
                self.state = "open"
            elif name in ("alg1", "alg2"):
                self.alg = (hashlib.sha1, 40) if name == "alg1" else (hashlib.sha256, 64)
                self.expect_sent.append(ACK)
                self.state = "key"
            elif name.startswith("alg"):
                self.expect_sent.append(NACK)
                self.finish("auth")
            else:
                self.finish("auth")
        elif self.state == "open":
            name = self.step(OPENED)
            if name is None:
                return
            if name == "ack+drop":
                self.put(ACK)
                self.drop_later()
                self.finish("ok or timeout")
                return
            self.put(self.frame(name))
            self.finish("ok" if name == "ack" else "auth")
        elif self.state == "key":
            name = self.step(KEY)
            if name is None:
                return
            size = self.alg[1]
            if name.startswith("key"):
                self.ra = [
                    "0123456789abcdef" * 4, "f" * 64, "0" * 64, hashlib.sha256(b"k").hexdigest(),
                ][int(name[3:])][:size]  # fmt: skip
                self.put("*#" + enc(self.ra) + "##")
                self.expect_sent.append(self.check_hmac)
                self.state = "proof"
            else:
                if name == "badkey_odd":
                    self.put("*#" + enc("a" * size)[:-1] + "##")
                elif name == "badkey_16":
                    self.put("*#" + "01" * (size - 1) + "16##")
                elif name == "badkey_two":
                    self.put("*#" + enc("1" * size) + "*" + enc("2" * size) + "##")
                else:
                    self.put(self.frame(name))
                self.finish("auth")
        elif self.state == "proof":
            body = frame[1:-2].split("*")
            if len(body) == 2 and body[0][:1] == "#" and body[0][1:].isdigit() and body[1].isdigit():
                self.rb = dec(body[0][1:])
                self.hm = dec(body[1])
            name = self.step(PROOF)
            if name is None:
                return
            if self.rb is None:
                self.finish("auth")  # check_hmac reports the malformed frame
                return
            f, size = self.alg
            kab = f(self.password.encode()).hexdigest()
            good = f((self.ra + self.rb + kab).encode()).hexdigest()
            other = hashlib.sha256 if f is hashlib.sha1 else hashlib.sha1
            if name == "proof":
                self.put("*#" + enc(good) + "##")
                self.expect_sent.append(ACK)
                self.finish("ok")
                return
            self.finish("auth")
            flip = lambda i: good[:i] + f"{int(good[i], 16) ^ 1:x}" + good[i + 1 :]  # noqa: E731
            wrong = {
                "bad_firstbit": lambda: enc(flip(0)),
                "bad_lastbit": lambda: enc(flip(size - 1)),
                "bad_middle": lambda: enc(flip(size // 2)),
                "bad_swapped": lambda: enc(f((self.rb + self.ra + kab).encode()).hexdigest()),
                "bad_password": lambda: enc(
                    f((self.ra + self.rb + f((self.password + "0").encode()).hexdigest()).encode()).hexdigest()
                ),
                "bad_echo": lambda: enc(self.hm or "0" * size),
                "bad_short": lambda: enc(good[:-1]),
                "bad_prefix": lambda: enc(good[:8]),
                "bad_long": lambda: enc(good + "0"),
                "bad_empty1": lambda: "00",
                "bad_zero": lambda: enc("0" * size),
                "bad_alg": lambda: enc(other((self.ra + self.rb + other(self.password.encode()).hexdigest()).encode()).hexdigest()),
                "bad_two": lambda: enc(good) + "*" + enc(good),
                "bad_odd": lambda: enc(good) + "1",
                "bad_16": lambda: "16" + enc(good[1:]),
            }
            if name in wrong:
                self.put("*#" + wrong[name]() + "##")
            else:
                self.put(self.frame(name))

    def drop_later(self):
        if self.delay:
            self.env.at(self.env.now + self.delay, "drop", self.env.drop)
        else:
            self.env.drop()

    # -- judging --------------------------------------------------------------------------------------
    def check_hmac(self, frame):
        f, size = self.alg
        body = frame[1:-2].split("*")
        if self.rb is None or self.hm is None or len(self.rb) != size:
            raise Violation(f"malformed HMAC answer {frame!r}")
        kab = f(self.password.encode()).hexdigest()
        want = f((self.ra + self.rb + A + B + kab).encode()).hexdigest()
        if self.hm != want or body != ["#" + enc(self.rb), enc(want)]:
            raise Violation(f"wrong HMAC answer {frame!r}: expected digest {want}")
        if self.rb in SEEN:
            raise Violation("the client key was used before")
        SEEN.add(self.rb)

    def check_sent(self, frames):
        if len(frames) != len(self.expect_sent):
            raise Violation(f"the client sent {frames}, expected {[x if isinstance(x, str) else 'HMAC' for x in self.expect_sent]}; gateway: {self.steps}")
        for got, want in zip(frames, self.expect_sent):
            if callable(want):
                want(got)
            elif got != want:
                raise Violation(f"the client sent {got!r}, expected {want!r}; gateway: {self.steps}")

    def check_end(self, result):
        ok = {
            "ok": ("ok",),
            "auth": ("auth",),
            "timeout": ("timeout",),
            "timeout or auth": ("timeout", "auth"),
            "ok or timeout": ("ok", "timeout"),
        }[self.expect_end]
        if result not in ok:
            raise Violation(f"start() ended with {result}, expected {self.expect_end}; gateway: {self.steps}")


SEEN = set()


def end_of(exc):
    if exc is None:
        return "ok"
    if isinstance(exc, InvalidAuthentication):
        return "auth"
    if isinstance(exc, TimeoutError):
        return "timeout"
    return f"{type(exc).__name__}: {exc}"


def dialogue(rep, session, password, split, delay, chooser=None):
    """One dialogue; every answer of the gateway is a choice."""
    env = Env(chooser, horizon=1000.0)
    d = Dialogue(env, chooser.flip, session, password, split, delay)

    async def main():
        c = make_client(env, SessionType(session), password)
        orig = env._connected

        def connected(tr):
            orig(tr)
            d.connected()

        env._connected = connected
        t0 = env.now
        try:
            await c.start()
            exc = None
        except Exception as e:
            exc = e
        took = env.now - t0
        await asyncio.sleep(30)  # nothing more is sent afterwards
        if took > BOUND:
            raise Violation(f"start() took {took} s; gateway: {d.steps}")
        if env.wbuf:
            raise Violation(f"the client sent an incomplete frame {env.wbuf!r}")
        d.check_end(end_of(exc))
        d.check_sent(env.frames)
        if exc is None and d.expect_end == "ok" and d.fault is None:
            # the session is usable
            env.on_frame = lambda f: env.send("*1*0*99##")
            n = len(env.frames)
            await c.send_message(parse_message("*1*1*12##"), force=True)
            same(env.frames[n:], ["*1*1*12##"], "frame sent after the handshake")
            same(str(await c.read_message()), "*1*0*99##", "message read after the handshake")

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"start() never ends ({v}); gateway: {d.steps}")
    rep.cover("dialogues_" + d.expect_end.replace(" ", "_"))
    rep.sample({"gateway": d.steps, "end": d.expect_end})


ERRORS = {
    "refused": ConnectionRefusedError("refused"),
    "timeout": TimeoutError("timed out"),
    "os": OSError(113, "No route to host"),
    "gai": socket.gaierror(-2, "Name or service not known"),
    "reset": ConnectionResetError("reset"),
    "aborted": ConnectionAbortedError("aborted"),
}


def unreachable(rep, session, name):
    env = Env()
    env.connect_error = ERRORS[name]

    async def main():
        c = make_client(env, SessionType(session))
        try:
            await c.start()
        except TimeoutError:
            return
        except Exception as e:
            raise Violation(f"start() with {name} raised {type(e).__name__}")
        raise Violation(f"start() with {name} succeeded")

    k, v = env.run(main())
    if k == "raised":
        raise v
    if k == "stuck":
        raise Violation(f"start() never ends with {name}")
    rep.count(states=1, transitions=1, traces=1)


HOSTS = ["192.168.1.35", "10.0.0.9", "myhome.local", "MyHome-Server.example.com", "fe80::1%eth0", "::1", "127.0.0.1"]
PORTS = [20000, 1, 80, 443, 20001, 32768, 50000, 65535]


def endpoint(rep, clients, where, starts):
    """Clients made in several ways reach the host and port they were given, at every start.

    clients: (host, port, session or None); where: inside, inside_loop, outside_loop.
    """
    env = Env(max_iterations=10**6)
    frames = {}

    def on_frame(tr, f):
        frames.setdefault(tr, []).append(f)
        env.send(ACK, tr=tr)

    env.greeting = []
    env.on_connected = lambda tr: env.send(ACK, tr=tr)
    env.on_frame_of = on_frame

    def make():
        out = []
        for host, port, session in clients:
            args = [] if session is None else [SessionType(session)]
            kw = {} if where == "inside" else {"loop": env.loop}
            if where == "inside_loop":
                # as the examples do
                if args:
                    kw["session_type"] = args[0]
                out.append(Client(host=host, port=port, password="12345", **kw))
                continue
            out.append(Client(host, port, "12345", *args, **kw))
        return out

    early = None
    other = asyncio.new_event_loop()
    try:
        if where == "outside_loop":
            asyncio.set_event_loop(other)
            early = make()

        async def main():
            cs = early or make()
            for n in range(starts):
                for c, (host, port, session) in zip(cs, clients):
                    await must(c.start(), "start")
                    same(env.log[-1:] and [x for x in env.log if x[0] == "connect"][-1], ("connect", host, port), "host and port of the connection")
                    tr = env.transports[-1]
                    same(frames[tr], [f"*99*{session or '9'}##"], f"frames of the handshake of {host}:{port}")
                    if session == "1":
                        t = asyncio.ensure_future(c.loop())
                        await settle(3)
                        env.send("*1*1*12##", tr=tr)
                        while tr.segments:
                            await asyncio.sleep(0.01)
                        await settle(5)
                        if t.done():
                            raise Violation(f"the loop ended: {t!r}")
                        await c.close()
                        await must(t, "loop")
                    else:
                        await must(c.send_message(parse_message("*1*1*12##")), "send")
                        same(str(await must(c.read_message(), "read")), ACK, "answer")
                        same(frames[tr][1:], ["*1*1*12##"], f"frames sent to {host}:{port}")

        k, v = env.run(main())
    finally:
        asyncio.set_event_loop(None)
        other.close()
    if k == "raised":
        raise v if isinstance(v, Violation) else Violation(f"{v!r}; clients {clients} made {where}")
    if k == "stuck":
        raise Violation(f"blocked ({v}); clients {clients} made {where}")
    rep.count(states=len(clients) * starts, transitions=3 * len(clients) * starts, traces=1)
    rep.cover("endpoints_" + where)


def all_nonces(rep, password, nonces):
    """The OPEN answer put on the wire, for many challenges."""
    for nonce in nonces:
        env = Env()
        sent = []

        def on_frame(f):
            sent.append(f)
            env.send(f"*#{nonce}##" if len(sent) == 1 else ACK)

        env.on_frame = on_frame

        async def main():
            await make_client(env, SessionType.CommandSession, password).start()

        k, v = env.run(main())
        if k != "done":
            raise Violation(f"nonce {nonce}: {k} {v!r}")
        same(sent, ["*99*9##", "*#" + answer(password, nonce) + "##"], f"frames for nonce {nonce}")
    rep.count(states=len(nonces), transitions=2 * len(nonces), traces=len(nonces))


def all_algorithms(rep, session, algorithms):
    """Every proposed HMAC algorithm but the two documented ones is refused with a NACK."""
    for alg in algorithms:
        env = Env()
        env.on_frame = lambda f: env.send(f"*98*{alg}##") if len(env.frames) == 1 else None

        async def main():
            await make_client(env, SessionType(session)).start()

        k, v = env.run(main())
        same((k, end_of(v) if k == "raised" else v), ("raised", "auth"), f"end of start() for the algorithm {alg!r}")
        same(env.frames, [f"*99*{session}##", NACK], f"frames for the algorithm {alg!r}")
    rep.count(states=len(algorithms), transitions=2 * len(algorithms), traces=len(algorithms))


def other_answers(rep, session, frames):
    """No other frame is a challenge: the start fails and nothing is sent."""
    for frame in frames:
        env = Env()
        env.on_frame = lambda f: env.send(frame)

        async def main():
            await make_client(env, SessionType(session)).start()

        k, v = env.run(main())
        same((k, end_of(v) if k == "raised" else v), ("raised", "auth"), f"end of start() answered {frame!r}")
        same(env.frames, [f"*99*{session}##"], f"frames when answered {frame!r}")
    rep.count(states=len(frames), transitions=2 * len(frames), traces=len(frames))


def real_socket(rep, session, password, plan):
    """Conformance: chosen dialogues over a real loopback connection."""
    it = iter(plan)

    class RealEnv:
        greeting = []
        on_frame = None
        frames = []

        def __init__(self, w):
            self.w = w
            self.frames = []

        now = 0

        def send(self, *segs):
            for s in segs:
                self.w.write(s)

        def drop(self, exc=None):
            self.w.close()

        def at(self, *a):
            raise NotImplementedError

    holder = {}

    async def main():
        async def serve(r, w):
            env = RealEnv(w)

            def pick(n):
                return next(it)

            d = holder["d"] = Dialogue(env, pick, session, password, "whole", 0)
            holder["env"] = env
            d.connected()
            try:
                while True:
                    f = (await r.readuntil(b"##")).decode()
                    env.frames.append(f)
                    if d.state in ("session", "open", "key", "proof"):
                        d.on_frame(f)
                    await w.drain()
            except (asyncio.IncompleteReadError, ConnectionError):
                pass
            w.close()

        srv = await asyncio.start_server(serve, "127.0.0.1", 0)
        port = srv.sockets[0].getsockname()[1]
        c = Client("127.0.0.1", port, password, SessionType(session))
        try:
            await c.start()
            exc = None
        except Exception as e:
            exc = e
        await c.close()
        await asyncio.sleep(0.05)
        srv.close()
        holder["d"].check_end(end_of(exc))
        holder["d"].check_sent(holder["env"].frames)

    asyncio.run(main())
    rep.count(states=1, transitions=len(plan), traces=1)


def run(rep, tier):
    thorough = tier == "thorough"
    cases = []
    for session in ("0", "9", "1"):
        for password in ("12345", "0", "4294967295", "00054321", *OTHER) if thorough else ("12345", "00054321", *OTHER):
            for split, delay in (("whole", 0), ("bytes", 0), ("half", 0), ("tail", 0), ("whole", 4), ("half", 2)):
                if not thorough and (split, delay) != ("whole", 0) and (session, password) != ("9", "12345") and (
                    session != "1" or split != "half"
                ):
                    continue
                cases.append((session, password, split, delay))
    explore_all(rep, dialogue, cases, limit=60)
    some = [(h, p, s) for h in HOSTS for p in PORTS for s in (None, "9", "0", "1")]
    rep.parallel_each(endpoint, lambda: (([c], w, 2) for c in some for w in ("inside", "inside_loop", "outside_loop")))
    pairs = [(a, b) for a in some[::9] for b in some[::7] if a != b]
    rep.parallel_each(endpoint, lambda: (([a, b], w, 2) for a, b in pairs for w in ("inside", "outside_loop")))
    rep.each(unreachable, [(s, e) for s in ("0", "9", "1") for e in ERRORS])
    nonces = [str(i) for i in range(1, 1000 if thorough else 300)] + [str(10**k + 7 * k) for k in range(1, 15)] + NONCES
    rep.each(all_nonces, [("12345", nonces[i::8]) for i in range(8)], limit=120)
    algs = ["".join(d) for n in range(1, 5 if thorough else 4) for d in itertools.product("0123456789", repeat=n)]
    algs = [a for a in algs if a not in ("1", "2")]
    rep.each(all_algorithms, [(s, algs[i::8]) for s in ("0", "9", "1") for i in range(8)], limit=120)
    # frames that look like a challenge: *N*M## with another N, *#A*B## ...
    others = [f"*{n}*{m}##" for n in [*range(98), *range(99, 10000 if thorough else 1000)] for m in ("1", "2")]
    others += [f"*{w}*{m}*{x}##" for w in ("98", "99", "1", "13") for m in ("1", "2") for x in ("0", "1", "12")]
    others += [f"*#{w}*{m}##" for w in ("98", "99", "1", "13") for m in ("1", "2")]
    others += [f"*#98*{m}*{x}##" for m in ("1", "2") for x in ("1", "2")]
    others = [f for f in others if not f.startswith("*98*")]  # (not judged, see the assumptions)
    rep.parallel_each(other_answers, lambda: ((s, others[i::16]) for s in ("0", "9", "1") for i in range(16)), limit=120)
    rep.cover("frames_that_are_no_challenge", len(others))
    ix = lambda o, n: o.index(n)  # noqa: E731
    a = ix(GREETING, "ack")
    plans = [
        [a, ix(SESSION, "ack")],
        [a, ix(SESSION, "nack")],
        [ix(GREETING, "nack")],
        [a, ix(SESSION, "nonce0"), ix(OPENED, "ack")],
        [a, ix(SESSION, "nonce3"), ix(OPENED, "nack")],
        [a, ix(SESSION, "alg1"), 0, ix(PROOF, "proof")],
        [a, ix(SESSION, "alg2"), 1, ix(PROOF, "proof")],
        [a, ix(SESSION, "alg2"), 3, ix(PROOF, "bad_lastbit")],
        [a, ix(SESSION, "alg1"), ix(KEY, "nack")],
        [a, ix(SESSION, "alg3")],
    ]
    rep.each(real_socket, [(s, "12345", p) for s in ("9", "1") for p in plans], limit=60)
