"""C07: the OPEN password answer is the one the gateway computes."""
import itertools

from .core import CheckError, Violation
from .openalg import VECTORS, answer, step
from pyown.auth import own_calc_pass

ASSUMPTIONS = [
    "nonces without any digit other than 0 are not judged (no gateway sends them)",
    "the reference is validated on the published vectors of the algorithm at every run",
]

EDGE = sorted(
    {0, 1, 9, 10, 12345, 54321, 99999, 999999999, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x7FFFFFFF, 0xAAAAAAAA,
     0x55555555, 0x12345678, 0x87654321, 0xDEADBEEF, 0x00FF00FF, 0xFF00FF00, 0x0F0F0F0F, 0xFFFF0000, 0x0000FFFF,
     0x01020304, 0xF0E0D0C0, 123456789, 4294506975}
)  # fmt: skip


def judge(password, nonce):
    got = own_calc_pass(password, nonce)
    want = answer(password, str(nonce))
    if got != want or not isinstance(got, str):
        raise Violation(f"password {password!r} nonce {nonce!r}: {got!r}, expected {want!r}")


def operations(rep, digit):
    """One digit on a basis of the 32-bit words: every bit, every pair of bits, and the edge words."""
    words = set(EDGE)
    words |= {1 << i for i in range(32)} | {0xFFFFFFFF ^ (1 << i) for i in range(32)}
    words |= {(1 << i) | (1 << j) for i in range(32) for j in range(i)}
    words |= {b << s for b in range(256) for s in (0, 8, 16, 24)}
    n = 0
    for w in sorted(words):
        for prefix in ("", "9", "5"):
            for form in (w, str(w), f"{w:012d}"):
                judge(form, prefix + digit)
                judge(form, prefix + digit * 2)
                n += 2
    rep.count(states=len(words), transitions=n, traces=n)


def nonces(rep, length, first, passwords):
    """Every nonce of that length starting with `first`."""
    n = 0
    for rest in itertools.product("0123456789", repeat=length - len(first)):
        nonce = first + "".join(rest)
        if not nonce.strip("0"):
            continue
        for p in passwords:
            judge(p, nonce)
            n += 1
        if nonce[0] != "0":
            judge(passwords[0], int(nonce))
            judge(str(passwords[-1]), int(nonce))
    rep.count(states=n // len(passwords), transitions=n * length, traces=n)


def long_nonce(rep, unit, sizes):
    """Repetitions of a unit, with leading zeros, up to long nonces."""
    n = 0
    for size in sizes:
        nonce = (unit * (size // len(unit) + 1))[:size]
        for lead in ("", "0", "000"):
            if not (lead + nonce).strip("0"):
                continue
            for p in (12345, 0, 0xFFFFFFFF, 0x12345678, "0000054321"):
                judge(p, lead + nonce)
                n += 1
    rep.count(states=len(sizes), transitions=n, traces=n)


def all_passwords(rep, lo, hi, nonce):
    for p in range(lo, hi):
        judge(p, nonce)
    rep.count(states=hi - lo, transitions=(hi - lo) * len(nonce), traces=hi - lo)


def run(rep, tier):
    thorough = tier == "thorough"
    for p, n, a in VECTORS:
        if answer(p, n) != a:
            raise CheckError("the reference algorithm is wrong")
    rep.each(vector, VECTORS)
    jobs = [lambda r, d=d: r.call(operations, d, limit=300) for d in "0123456789" if d != "0"]
    jobs.append(lambda r: r.call(zeros))
    few = [12345, 0, 0xFFFFFFFF, 0x12345678, 0xF0E0D0C0, 99999999]
    for length in (1, 2, 3):
        jobs.append(lambda r, a=(length, "", EDGE): r.call(nonces, *a, limit=600))
    for d in "0123456789":
        jobs.append(lambda r, a=(4, d, EDGE if thorough else few): r.call(nonces, *a, limit=600))
        for e in "0123456789":
            jobs.append(lambda r, a=(5, d + e, few if thorough else few[3:5]): r.call(nonces, *a, limit=600))
            if thorough:
                jobs.append(lambda r, a=(6, d + e, [0x12345678, 987654321]): r.call(nonces, *a, limit=900))
    units = ["".join(w) for k in (1, 2) for w in itertools.product("0123456789", repeat=k)] + ["0123456789", "9876543210"]
    for u in units:
        jobs.append(lambda r, a=(u, [6, 7, 8, 9, 10, 11, 12, 15, 16, 20, 31, 32, 33, 64]): r.call(long_nonce, *a, limit=300))
    for nonce in ("603356072", "410501656", "123456789"):
        for lo in range(0, 100000, 25000):
            jobs.append(lambda r, a=(lo, lo + 25000 if thorough else lo + 5000, nonce): r.call(all_passwords, *a, limit=300))
    rep.parallel(jobs)
    rep.sample({"password": 12345, "nonce": "603356072", "answer": answer(12345, "603356072")})
    rep.cover("edge_passwords", len(EDGE))


def zeros(rep):
    """Zeros before, between and after the other digits change nothing by themselves."""
    n = 0
    for d in "123456789":
        for k in range(0, 12):
            for z in ("0" * k + d, d + "0" * k, "0" * k + d + "0" * k + d):
                for p in EDGE:
                    judge(p, z)
                    n += 1
    rep.count(states=n // len(EDGE), transitions=n, traces=n)


def vector(rep, p, n, a):
    for pp in (p, int(p)):
        for nn in (n, int(n)):
            if own_calc_pass(pp, nn) != a:
                raise Violation(f"password {pp!r} nonce {nn!r}: {own_calc_pass(pp, nn)!r}, published answer {a!r}")
    rep.count(states=1, transitions=4, traces=4)


__all__ = ["step"]
