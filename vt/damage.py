"""Ways to damage a compressed block."""


def _flip(z, at, bit):
    b = bytearray(z)
    b[at % len(b)] ^= 1 << bit
    return bytes(b)


def kinds(r):
    """Damage functions, in an order that depends on r."""
    res = [
        lambda z: _flip(z, len(z) // 2, 3),
        lambda z: _flip(z, len(z) - 1, 0),                 # checksum
        lambda z: _flip(z, len(z) - 4, 7),
        lambda z: _flip(z, 0, 2),                          # stream header
        lambda z: bytes(len(z)),
        lambda z: z[: len(z) // 2] + bytes(len(z) - len(z) // 2),
        lambda z: z[1:] + b"\0",
        lambda z: b"\xff" * len(z),
        lambda z: z[:-1] + bytes([z[-1] ^ 0x55]),
        lambda z: z[: len(z) - 4] + b"\0\0\0\1",
    ]
    r.shuffle(res)
    return res


def surely(z, r):
    """z damaged so that zlib does not accept it."""
    import zlib
    for k in kinds(r):
        d = k(z)
        if d == z:
            continue
        try:
            zlib.decompress(d)
        except zlib.error:
            return d
    return b"\xff" * len(z)


def shorter(r):
    """Functions that leave bytes out of a block."""
    res = [
        lambda z: z[:-1],
        lambda z: z[:-4],
        lambda z: z[1:],
        lambda z: z[2:],
        lambda z: z[: max(1, len(z) // 2)],
        lambda z: z[:1],
        lambda z: z[: len(z) // 3] + z[len(z) // 2 :],
        lambda z: z[: 2 + len(z) % 7],
        lambda z: z[len(z) // 2 :] + z[: len(z) // 2] + z,    # more than there was
        lambda z: b"\0" + z,
    ]
    r.shuffle(res)
    return res
