"""Independent reference of the OPEN password algorithm: every digit is a 32-bit permutation of bits."""
M = 0xFFFFFFFF


def rol(x, n):
    return ((x << n) | (x >> (32 - n))) & M


def step(x, d):
    if d == "1":
        return rol(x, 25)
    if d == "2":
        return rol(x, 28)
    if d == "3":
        return rol(x, 29)
    if d == "4":
        return rol(x, 1)
    if d == "5":
        return rol(x, 5)
    if d == "6":
        return rol(x, 12)
    b = x.to_bytes(4, "big")
    if d == "7":  # ABCD -> D A C B
        return int.from_bytes(bytes([b[3], b[0], b[2], b[1]]), "big")
    if d == "8":  # ABCD -> C D B A
        return int.from_bytes(bytes([b[2], b[3], b[1], b[0]]), "big")
    if d == "9":
        return x ^ M
    return x


def answer(password, nonce):
    """The answer for a nonce with at least one digit different from 0."""
    x = int(password)
    for d in nonce:
        x = step(x, d)
    return str(x)


VECTORS = [
    ("12345", "603356072", "25280520"),
    ("12345", "410501656", "119537670"),
    ("12345", "630292165", "4269684735"),
    ("12345", "523781130", "537331200"),
    ("12345", "844308954", "4294506975"),
]
