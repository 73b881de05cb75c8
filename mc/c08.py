"""C08: the HMAC credentials follow the documented construction."""
import hashlib
import itertools

from .core import Violation
from pyown.auth import (
    AuthAlgorithm,
    client_hmac,
    compare_hmac,
    create_key,
    digits_to_hex,
    hex_to_digits,
    server_hmac,
)

ASSUMPTIONS = [
    "SHA-1 and SHA-256 of hashlib are taken as correct",
    "that generated keys are unpredictable is not decidable by observation: length, alphabet, and that no two "
    "of the generated keys coincide are checked",
]

A = "736F70653E"
B = "636F70653E"
ALGS = {"SHA1": (hashlib.sha1, 40), "SHA256": (hashlib.sha256, 64)}
HEX = "0123456789abcdef"

PASSWORDS = ["", "0", "12345", "99999", "password", "Passw0rd", "abcDEF123", "1234567890" * 10, "a", "A", "AbC", "open 1", "é", "00012345"]


def keys(size):
    out = ["0" * size, "f" * size, (HEX * 4)[:size], (HEX[::-1] * 4)[:size]]
    out += [c * size for c in HEX[1:15:3]]
    out += ["0" * (size - 1) + "1", "1" + "0" * (size - 1), ("0f" * 32)[:size], ("a5" * 32)[:size]]
    out += [hashlib.sha512(str(i).encode()).hexdigest()[:size] for i in range(6)]
    return out


def digests(rep, alg, password):
    f, size = ALGS[alg]
    algorithm = AuthAlgorithm[alg]
    kab = f(password.encode()).hexdigest()
    n = 0
    ks = keys(size)
    for ra in ks:
        for rb in ks:
            want = f((ra + rb + A + B + kab).encode()).digest()
            got = client_hmac(server_key=ra, client_key=rb, password=password, hash_algorithm=algorithm)
            if bytes(got) != want:
                raise Violation(f"client string for {alg} Ra={ra} Rb={rb} password={password!r}: {got!r}")
            want = f((ra + rb + kab).encode()).digest()
            got = server_hmac(server_key=ra, client_key=rb, password=password, hash_algorithm=algorithm)
            if bytes(got) != want:
                raise Violation(f"server string for {alg} Ra={ra} Rb={rb} password={password!r}: {got!r}")
            n += 2
    if alg == "SHA256":  # the default algorithm
        got = client_hmac(ks[0], ks[1], password)
        if bytes(got) != f((ks[0] + ks[1] + A + B + kab).encode()).digest():
            raise Violation("the default client string is not SHA-256")
        if bytes(server_hmac(ks[0], ks[1], password)) != f((ks[0] + ks[1] + kab).encode()).digest():
            raise Violation("the default server string is not SHA-256")
    got = client_hmac(ks[0], ks[1], password, "0A", "0B", algorithm)
    if bytes(got) != f((ks[0] + ks[1] + "0A" + "0B" + kab).encode()).digest():
        raise Violation("the identities are not used as given")
    rep.count(states=len(ks) ** 2, transitions=n, traces=n)


def encode(s):
    return "".join(f"{int(c, 16):02d}" for c in s)


def hexdigits(rep, alphabet, length, first):
    n = 0
    for w in itertools.product(alphabet, repeat=length - len(first)):
        s = first + "".join(w)
        d = hex_to_digits(s)
        if d != encode(s):
            raise Violation(f"hex_to_digits({s!r}) is {d!r}, expected {encode(s)!r}")
        b = digits_to_hex(encode(s))
        if b != s.lower():
            raise Violation(f"digits_to_hex({encode(s)!r}) is {b!r}, expected {s.lower()!r}")
        n += 1
    rep.count(states=n, transitions=2 * n, traces=2 * n)


def long_hex(rep, s):
    if hex_to_digits(s) != encode(s) or digits_to_hex(encode(s)) != s.lower():
        raise Violation(f"conversion of {s!r}: {hex_to_digits(s)!r} {digits_to_hex(encode(s))!r}")
    rep.count(states=1, transitions=2, traces=2)


def digits(rep, length, first):
    """Every digit string of that length: accepted exactly when it is a sequence of values 00..15."""
    n = 0
    for w in itertools.product("0123456789", repeat=length - len(first)):
        s = first + "".join(w)
        ok = len(s) % 2 == 0 and all(int(s[i : i + 2]) <= 15 for i in range(0, len(s), 2))
        try:
            h = digits_to_hex(s)
        except ValueError:
            if ok:
                raise Violation(f"digits_to_hex({s!r}) refused")
        else:
            if not ok:
                raise Violation(f"digits_to_hex({s!r}) accepted as {h!r}")
            if hex_to_digits(h) != s:
                raise Violation(f"digits_to_hex({s!r}) is {h!r}")
        n += 1
    rep.count(states=n, transitions=n, traces=n)


def malformed(rep, s):
    try:
        h = digits_to_hex(s)
    except ValueError:
        rep.count(states=1, transitions=1, traces=1)
        return
    raise Violation(f"digits_to_hex({s!r}) accepted as {h!r}")


def compare(rep, size):
    """Equality, against every single-bit difference, every truncation and every extension."""
    base = hashlib.sha512(b"x").digest()[:size]
    n = 0
    for b in (base, bytes(size), b"\xff" * size, base.hex().encode()):
        if compare_hmac(b, bytes(b)) is not True:
            raise Violation(f"compare_hmac: {b!r} differs from itself")
        for i in range(len(b)):
            for bit in range(8):
                o = bytearray(b)
                o[i] ^= 1 << bit
                if compare_hmac(b, bytes(o)) or compare_hmac(bytes(o), b):
                    raise Violation(f"compare_hmac: {b!r} equals {bytes(o)!r}")
                n += 2
        for i in range(len(b)):
            if compare_hmac(b, b[:i]) or compare_hmac(b[:i], b):
                raise Violation(f"compare_hmac: {b!r} equals its first {i} bytes")
        for ext in (b"\0", b" ", b"0"):
            if compare_hmac(b, b + ext) or compare_hmac(b + ext, b) or compare_hmac(b, ext + b):
                raise Violation(f"compare_hmac: {b!r} equals its extension")
        if compare_hmac(b, b[::-1]) is not (b == b[::-1]):
            raise Violation("compare_hmac: the order of the bytes does not matter")
    if compare_hmac(base.hex().encode(), base.hex().upper().encode()):
        raise Violation("compare_hmac ignores the case")
    rep.count(states=size, transitions=n, traces=n)


def created(rep, alg, count):
    size = ALGS[alg][1]
    seen = set()
    for _ in range(count):
        k = create_key(AuthAlgorithm[alg])
        if not isinstance(k, str) or len(k) != size or not set(k) <= set(HEX + "ABCDEF"):
            raise Violation(f"create_key({alg}) gives {k!r}")
        seen.add(k.lower())
    if len(seen) != count:
        raise Violation(f"create_key({alg}) repeats its keys: {len(seen)} different ones of {count}")
    # every digit of the alphabet appears in every position
    cols = [set(x) for x in zip(*seen)]
    if any(len(c) < 16 for c in cols):
        raise Violation(f"create_key({alg}): a position never takes some hex digit in {count} keys")
    if alg == "SHA256" and len(create_key()) != 64:
        raise Violation("the default key is not as long as a SHA-256 digest")
    rep.count(states=count, transitions=count, traces=count)


def algorithms(rep):
    if AuthAlgorithm.from_string("1") is not AuthAlgorithm.SHA1 or AuthAlgorithm.from_string("2") is not AuthAlgorithm.SHA256:
        raise Violation("the algorithm codes are 1 for SHA-1 and 2 for SHA-256")
    if [str(a.to_message()) for a in (AuthAlgorithm.SHA1, AuthAlgorithm.SHA256)] != ["*98*1##", "*98*2##"]:
        raise Violation("the algorithm frames are *98*1## and *98*2##")
    for s in ["", "0", "3", "01", "02", "11", "12", "#1", "sha1", " 1", "1 ", *[str(i) for i in range(4, 300)]]:
        try:
            AuthAlgorithm.from_string(s)
        except ValueError:
            continue
        raise Violation(f"unknown algorithm {s!r} accepted")
    rep.count(states=300, transitions=300, traces=300)


def run(rep, tier):
    thorough = tier == "thorough"
    jobs = []
    for alg in ALGS:
        for p in PASSWORDS + (["%05d" % i for i in range(0, 100000, 997)] if thorough else []):
            jobs.append(lambda r, a=(alg, p): r.call(digests, *a, limit=300))
    jobs.append(lambda r: r.call(hexdigits, HEX + "ABCDEF", 3, "", limit=300))
    for length in range(0, 5 if thorough else 4):
        jobs.append(lambda r, a=(HEX, length, ""): r.call(hexdigits, *a, limit=300))
    for c in HEX:
        jobs.append(lambda r, a=(HEX, 5 if thorough else 4, c): r.call(hexdigits, *a, limit=900))
    for length in range(0, 5):
        jobs.append(lambda r, a=(length, ""): r.call(digits, *a, limit=300))
    for d in "0123456789":
        jobs.append(lambda r, a=(5, d): r.call(digits, *a, limit=300))
        jobs.append(lambda r, a=(6 if thorough else 4, d): r.call(digits, *a, limit=300))
    jobs.append(lambda r: r.each(long_hex, [(k,) for s in (40, 64, 128, 1000) for k in keys(s)]))
    jobs.append(lambda r: r.each(malformed, [(s,) for s in ("0a", "a0", "0x", "-1", "+1", "1 ", " 1", "#1", "1#", "00#0", "é1", "1.")]))
    # one bad pair at every position of a long string
    bad = []
    for n in (20, 32, 40, 64):
        for i in range(n):
            bad.append(("01" * i + "16" + "02" * (n - i - 1),))
            bad.append(("15" * i + "99" + "00" * (n - i - 1),))
        bad.append(("01" * n + "1",))
    jobs.append(lambda r: r.each(malformed, bad))
    for size in (20, 32, 1):
        jobs.append(lambda r, s=size: r.call(compare, s, limit=300))
    for alg in ALGS:
        jobs.append(lambda r, a=(alg, 2000000 if thorough else 400000): r.call(created, *a, limit=300))
    jobs.append(lambda r: r.call(algorithms))
    rep.parallel(jobs)
    rep.sample({"algorithm": "SHA1", "Ra": "0" * 40, "Rb": "f" * 40, "password": "12345"})
    rep.sample({"hex": "0f1e", "digits": encode("0f1e")})
